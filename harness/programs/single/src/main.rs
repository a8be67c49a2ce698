//! Writes what comes of every word at every site, one line each: site, way, word, outcome.
#[path = "../../../agree/src/spaces.rs"]
mod spaces;
#[path = "../../src/inputs.rs"]
mod inputs;
use single::ops;
use std::io::Write;
/// The countries of a phone are a set: neither the order of the entries nor whose error is reported is specified.
fn unordered(r: String) -> String {
    let mut w: Vec<&str> = r.split(' ').collect();
    match w[0] {
        "Err" | "refused" => w[0].to_string(),
        _ => {
            w.sort();
            w.join(" ")
        }
    }
}
fn main() {
    let depth: usize = std::env::args().nth(1).unwrap().parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let mut o = std::io::BufWriter::new(std::io::stdout().lock());
    for s in single::sites() {
        for w in inputs::inputs(s.fam, depth) {
            for (way, f) in &s.ways {
                let r = std::panic::catch_unwind(|| f(&w)).unwrap_or_else(|_| "panics".to_string());
                let r = if s.name.ends_with("PhoneU") { unordered(r) } else { r };
                writeln!(o, "{}\t{way}\t{w:?}\t{}", s.name, r.escape_debug()).unwrap();
            }
        }
    }
}
