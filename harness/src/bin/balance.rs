#[path = "../comp/balance.rs"]
mod balance;
fn main() {
    vharness::main(vec![balance::cache(), balance::balance(), balance::choice(), balance::rng()]);
}
