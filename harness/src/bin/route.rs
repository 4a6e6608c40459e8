#[path = "../comp/route.rs"]
mod route;
fn main() {
    vharness::main(vec![route::steer(), route::reconnect(), route::spawn_ready()]);
}
