#[path = "../comp/load.rs"]
mod load;
fn main() {
    vharness::main(vec![load::load()]);
}
