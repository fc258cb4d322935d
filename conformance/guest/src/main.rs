#![allow(dead_code)]
mod programs {
    include!("../../programs.rs");

    fn say(s: &str) {
        println!("said {s}");
    }
    /// Clients may come now.
    fn ready() {
        println!("ready");
    }
}

#[lunatic::main]
fn main(_: lunatic::Mailbox<()>) {
    let args: Vec<String> = std::env::args().collect();
    let n = args.len();
    let (name, port) = (&args[n - 2], args[n - 1].parse().unwrap());
    let p = programs::programs().into_iter().find(|p| p.name == name).expect("no such program");
    (p.main)(port);
    println!("finished");
}
