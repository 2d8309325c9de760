//! Executor: drives the real svgdom through its public API and reports what it observed.
//! It contains no expectations: the TLA+ specification judges the reports.
mod json;
mod alloc;
mod proj;
mod dom;
mod parse;
mod ids;
mod tables;

use std::io::{BufRead, Write};

#[global_allocator]
static A: alloc::Tagged = alloc::Tagged;

/// Formats every message, as a real logger does, and drops it.
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { std::hint::black_box(format!("{}", r.args())); }
    fn flush(&self) {}
}

fn main() {
    log::set_logger(&Sink).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::with_capacity(1 << 16, out.lock());
    // A deep recursion of the code under test must not be mistaken for a small stack.
    match args[1].as_str() {
        "dom-random" => dom::random(&args[2..], &mut out),
        "dom-replay" => dom::replay(&args[2], &mut out),
        "parse" => parse::run(&args[2], &mut out),
        "build" => parse::run_build(&args[2], &mut out),
        "lex" => parse::run_lex(&args[2], &mut out),
        "decls" => parse::run_decls(&args[2], &mut out),
        "tables" => tables::run(&args[2], &mut out),
        _ => { eprintln!("unknown command"); std::process::exit(2) }
    }
    out.flush().unwrap();
}

pub fn lines(path: &str) -> impl Iterator<Item = String> {
    let f = std::io::BufReader::new(std::fs::File::open(path).expect("input file"));
    f.lines().map(|l| l.unwrap())
}
