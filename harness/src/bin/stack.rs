#[path = "../comp/stack.rs"]
mod stack;
fn main() {
    vharness::main(vec![stack::component()]);
}
