//! Checks of the `puck` crate. Everything goes through its public API.
use mc::report::Check;

mod http;
mod io;
mod refhttp;
mod refws;
mod server;
mod ws;

#[global_allocator]
static A: mc::coro::TrapAlloc = mc::coro::TrapAlloc;

fn main() {
    let mut checks: Vec<Check> = vec![];
    checks.extend(http::checks());
    checks.extend(server::checks());
    checks.extend(ws::checks());
    mc::report::main(checks)
}
