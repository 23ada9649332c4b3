//! Conformance driver: reads sessions (one operation per line) from stdin, performs them on the
//! real library through its public API and writes one JSON line per operation to stdout.
mod geo;
mod vast;
mod recolor;
mod conc;

use std::io::{BufRead, Write};

/// Tokens of one line of input.
pub struct Tok<'a>(std::str::SplitAsciiWhitespace<'a>);
impl<'a> Tok<'a> {
    pub fn s(&mut self) -> &'a str { self.0.next().expect("missing token") }
    pub fn i(&mut self) -> i64 { self.s().parse().expect("bad integer") }
    pub fn u(&mut self) -> usize { self.i() as usize }
    pub fn f(&mut self) -> f64 { self.s().parse().expect("bad float") }
    pub fn vec(&mut self, n: usize) -> Vec<i64> { (0..n).map(|_| self.i()).collect() }
}

pub fn catch<R>(f: impl FnOnce() -> R) -> Option<R> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

/// Float to a fixed-point integer that TLC can read; anything unusual becomes 2000000000.
pub fn fix(x: f64, scale: f64) -> i64 {
    let y = (x * scale).round();
    if y.is_finite() && y.abs() <= 1.9e9 { y as i64 } else { 2_000_000_000 }
}

pub fn list<T: std::fmt::Display>(it: impl IntoIterator<Item = T>) -> String {
    let v: Vec<String> = it.into_iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}

/// Something that performs the operations of a session one after the other.
pub trait Session {
    fn op(&mut self, name: &str, t: &mut Tok) -> String;
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mode = std::env::args().nth(1).expect("mode");
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    let mut id = 0i64;
    let mut k = 0;
    let mut session: Option<Box<dyn Session>> = None;
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut t = Tok(line.split_ascii_whitespace());
        let Some(name) = t.0.next() else { continue };
        match name {
            "S" => {
                id = t.i();
                k = 0;
                session = None;
                session = Some(match mode.as_str() {
                    "recolor" => Box::new(recolor::Recolor::default()) as Box<dyn Session>,
                    "geo" => Box::new(geo::Geo::default()),
                    "conc" => Box::new(conc::Conc::default()),
                    m => panic!("unknown mode {m}"),
                });
            }
            _ => {
                let res = session.as_mut().expect("no session").op(name, &mut t);
                k += 1;
                writeln!(out, "{{\"s\":{id},\"k\":{k},{res}}}").unwrap();
                out.flush().unwrap();
            }
        }
    }
}
