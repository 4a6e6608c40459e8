#[path = "../comp/budget.rs"]
mod budget;
fn main() {
    vharness::main(vec![budget::budget(), budget::backoff()]);
}
