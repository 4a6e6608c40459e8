#[path = "../comp/pipe.rs"]
mod pipe;
#[path = "../comp/testing.rs"]
mod testing;
#[path = "../comp/util.rs"]
mod util;
fn main() {
    vharness::main(vec![util::call_all(), util::oneshot(), util::future(), pipe::pipe(), testing::test_mock(), testing::discover()]);
}
