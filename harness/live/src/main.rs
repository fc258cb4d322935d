//! Checks of `puck_liveview` (with its client script, in Node) and of the `chat` example.
mod apply;
mod chat;
mod dom;
mod html;
mod live;
mod many;
#[path = "../../puck/src/refws.rs"]
#[allow(dead_code)]
mod refws;
mod tree;

#[global_allocator]
static A: mc::coro::TrapAlloc = mc::coro::TrapAlloc;

fn main() {
    let mut checks = live::checks();
    checks.push(html::check());
    checks.push(apply::check());
    checks.push(many::check());
    checks.extend(chat::checks());
    mc::report::main(checks)
}
