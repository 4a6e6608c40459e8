#[path = "../comp/concurrency.rs"]
mod concurrency;
#[path = "../comp/limits.rs"]
mod limits;
fn main() {
    vharness::main(vec![concurrency::component(), limits::rate(), limits::shed(), limits::timeout()]);
}
