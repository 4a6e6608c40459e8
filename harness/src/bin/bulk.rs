#[path = "../comp/bulk.rs"]
mod bulk;
fn main() {
    vharness::main(vec![bulk::component()]);
}
