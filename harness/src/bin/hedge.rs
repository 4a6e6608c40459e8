#[path = "../comp/hedge.rs"]
mod hedge;
fn main() {
    vharness::main(vec![hedge::filter(), hedge::hedge()]);
}
