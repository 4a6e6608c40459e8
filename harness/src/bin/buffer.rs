#[path = "../comp/buffer.rs"]
mod buffer;
fn main() {
    vharness::main(vec![buffer::component()]);
}
