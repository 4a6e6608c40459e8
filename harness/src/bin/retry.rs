#[path = "../comp/retry.rs"]
mod retry;
fn main() {
    vharness::main(vec![retry::component()]);
}
