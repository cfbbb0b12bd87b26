//! Runs cases against the real crate: one JSON object per input line, and per
//! output line the same object with the observation added.

mod cff;
mod charstring;
mod fuzz;
mod json;
mod tape;
mod weave;

use json::J;
use std::io::{BufRead, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // A small stack makes unbounded recursion show.
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(work)
        .unwrap()
        .join()
        .unwrap();
}

fn work() {
    let kind = std::env::args().nth(1).expect("a kind of cases is expected");
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        let case = J::parse(&line);
        let result = match kind.as_str() {
            "cs" => case.clone().put("ev", charstring::run(&case)),
            "part" => case.clone().put("r", cff::part(&case)),
            "tape" => case.clone().put("r", cff::disturbed(&case)),
            "many" => case.clone().put("r", fuzz::run(&case)),
            "seq" => case.clone().put("r", cff::sequence(&case)),
            "weave" => case.clone().put("r", weave::run(&case)),
            "table" => case.clone().put("r", cff::table(&case)),
            kind => panic!("unknown kind {kind}"),
        };
        let mut out = String::new();
        result.write(&mut out);
        out.push('\n');
        let mut stdout = stdout.lock();
        stdout.write_all(out.as_bytes()).unwrap();
        stdout.flush().unwrap();
    }
}
