//! Generated parsers and lexers, compiled and driven: what they do, recorded event by event.
use crate::cfg::Cfg;
use crate::ctx::Ctx;
use crate::glue::*;
use crate::model::*;
use crate::util::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    RustParser,
    RustLexer,
    CppParser,
    CppLexer,
}

/// One generated parser or lexer.
pub struct Unit {
    pub id: usize,
    pub name: String,
    pub spec: Spec,
    pub cfg: Cfg,
    pub info: Info,
    pub alg: A,
    pub kind: Kind,
    pub dir: PathBuf,
    pub grammar_text: String,
}

impl Unit {
    pub fn describe(&self) -> String {
        format!("{} ({}, {:?})\n{}", self.name, self.alg.name(), self.kind, self.grammar_text)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Shift(i64, String),
    Reduce(usize),
    Enter(usize),
    Exit(usize),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Unexp {
    pub got: i64,
    pub data: String,
    pub expected: Vec<i64>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Res {
    Ok,
    /// several entries: GLR stacks that ended apart; data is empty for LR
    Unexpected(Vec<Unexp>),
    LexerError(String),
    /// C++ runtime_error
    Throw(String),
    /// anything else: panic, other exception, crash, limit
    Bad(String),
    /// not run, because an earlier case of the same object or process ended badly
    Skipped,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Obs {
    pub ev: Vec<Ev>,
    pub res: Res,
    pub calls: usize,
    /// text of the error as displayed
    pub shown: String,
}

impl Obs {
    fn skipped() -> Obs {
        Obs { ev: vec![], res: Res::Skipped, calls: 0, shown: String::new() }
    }
    pub fn show(&self) -> String {
        format!("events {:?}\nresult {:?}\ntoken calls {}", self.ev, self.res, self.calls)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LexCall {
    /// token index, -1 end of file, -2 error
    pub tok: i64,
    pub start: usize,
    pub end: usize,
    /// Rust: bytes of slice(); C++: empty
    pub slice: Vec<u8>,
}

/// -1: end of file, -2: error from the token source, otherwise a token index.
pub type Seq = Vec<i32>;

#[derive(Clone, Debug)]
pub enum Case {
    /// sequences parsed one after the other with one parser object
    Parse(usize, Vec<Seq>),
    /// a parse during whose token calls complete parses with other objects happen
    Nest(usize, Seq, usize, Seq),
    /// the sequences parsed by several threads at once
    Threads(usize, usize, Vec<Seq>),
    Lex(usize, Vec<u8>, usize),
}

#[derive(Clone, Debug)]
pub enum Reply {
    Parses(Vec<Obs>),
    Lexed(Vec<LexCall>),
    Crash(String),
    Skipped,
}

fn seq_text(s: &[i32]) -> String {
    if s.is_empty() {
        "-".into()
    } else {
        s.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
    }
}

impl Case {
    pub fn unit(&self) -> usize {
        match self {
            Case::Parse(u, _) | Case::Nest(u, ..) | Case::Threads(u, ..) | Case::Lex(u, ..) => *u,
        }
    }
    fn line(&self, local: &BTreeMap<usize, usize>) -> String {
        match self {
            Case::Parse(u, s) => {
                format!("P {} {}", local[u], s.iter().map(|x| seq_text(x)).collect::<Vec<_>>().join(";"))
            }
            Case::Nest(u, a, v, b) => format!("N {} {} {} {}", local[u], seq_text(a), local[v], seq_text(b)),
            Case::Threads(u, n, s) => {
                format!("T {} {} {}", local[u], n, s.iter().map(|x| seq_text(x)).collect::<Vec<_>>().join(";"))
            }
            Case::Lex(u, b, extra) => {
                let mut h = String::new();
                for x in b {
                    let _ = write!(h, "{:02x}", x);
                }
                format!("L {} {} {}", local[u], if h.is_empty() { "-" } else { &h }, extra)
            }
        }
    }
}

fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    (0..b.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

fn parse_obs(s: &str) -> Option<Obs> {
    let mut f = s.split('|');
    let evs = f.next()?;
    let res = f.next()?;
    let calls = f.next()?.parse().ok()?;
    let shown = String::from_utf8_lossy(&unhex(f.next()?)).into_owned();
    let mut ev = Vec::new();
    for e in evs.split(' ').filter(|x| !x.is_empty()) {
        let rest = &e[1..];
        ev.push(match &e[..1] {
            "s" => {
                let (a, b) = rest.split_once(':')?;
                Ev::Shift(a.parse().ok()?, b.to_string())
            }
            "r" => Ev::Reduce(rest.parse().ok()?),
            "e" => Ev::Enter(rest.parse().ok()?),
            "x" => Ev::Exit(rest.parse().ok()?),
            _ => return None,
        });
    }
    let (k, rest) = res.split_at(1);
    let res = match k {
        "O" => Res::Ok,
        "U" => {
            let mut v = Vec::new();
            for p in rest.split('/').filter(|p| !p.is_empty()) {
                let mut q = p.split(':');
                let got = q.next()?.parse().ok()?;
                let data = q.next()?.to_string();
                let expected =
                    q.next()?.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap_or(-99)).collect();
                v.push(Unexp { got, data, expected });
            }
            Res::Unexpected(v)
        }
        "L" => Res::LexerError(rest.to_string()),
        "T" => Res::Throw(String::from_utf8_lossy(&unhex(rest)).into_owned()),
        "B" => Res::Bad(String::from_utf8_lossy(&unhex(rest)).into_owned()),
        "S" => Res::Skipped,
        _ => return None,
    };
    Some(Obs { ev, res, calls, shown })
}

fn parse_reply(case: &Case, line: &str) -> Option<Reply> {
    match case {
        Case::Lex(..) => {
            let mut v = Vec::new();
            for c in line.split(' ').filter(|x| !x.is_empty()) {
                let mut f = c.split(':');
                v.push(LexCall {
                    tok: f.next()?.parse().ok()?,
                    start: f.next()?.parse().ok()?,
                    end: f.next()?.parse().ok()?,
                    slice: unhex(f.next()?),
                });
            }
            Some(Reply::Lexed(v))
        }
        _ => line.split('\t').map(parse_obs).collect::<Option<Vec<_>>>().map(Reply::Parses),
    }
}

// ------------------------------------------------------------------ building

const RUST_HEAD: &str = r#"
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::io::{BufRead, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug)]
pub struct D(pub i64);
#[derive(Debug, Clone)]
pub struct DC(pub i64);
#[derive(Debug)]
pub struct E(pub i64);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "token source error {}", self.0) }
}
impl std::error::Error for E {}

pub struct Tr { log: RefCell<String>, n: Cell<usize>, limit: Cell<usize> }
impl Tr {
    pub fn new() -> Tr { Tr { log: RefCell::new(String::new()), n: Cell::new(0), limit: Cell::new(0) } }
    fn tick(&self) {
        self.n.set(self.n.get() + 1);
        if self.n.get() > self.limit.get() { panic!("more callbacks than any derivation has"); }
    }
    pub fn shift(&self, t: i64, d: i64) { self.tick(); let _ = write!(self.log.borrow_mut(), "s{}:{} ", t, d); }
    pub fn red(&self, r: usize) { self.tick(); let _ = write!(self.log.borrow_mut(), "r{} ", r); }
}

pub struct Src<'h> { seqs: Vec<Vec<i64>>, k: Cell<usize>, i: Cell<usize>, calls: Cell<usize>, hook: Option<&'h dyn Fn()> }
impl<'h> Src<'h> {
    pub fn new(seqs: Vec<Vec<i64>>, hook: Option<&'h dyn Fn()>) -> Src<'h> {
        Src { seqs, k: Cell::new(0), i: Cell::new(0), calls: Cell::new(0), hook }
    }
    pub fn begin(&self, k: usize, tr: &Tr) {
        self.k.set(k); self.i.set(0); self.calls.set(0);
        tr.n.set(0); tr.limit.set(3000 + 400 * self.seqs[k].len());
    }
    /// token, datum; the datum of the i-th token of sequence k is 1000 * k + i
    pub fn next(&self) -> (i64, i64) {
        if let Some(h) = self.hook { h(); }
        let s = &self.seqs[self.k.get()];
        let i = self.i.get();
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() > s.len() + 60 { panic!("the token source is asked again and again after the end"); }
        if i < s.len() { self.i.set(i + 1); (s[i], (1000 * self.k.get() + i) as i64) } else { (-1, (1000 * self.k.get() + i) as i64) }
    }
    pub fn end(&self, tr: &Tr, res: &str, shown: &str) -> String {
        format!("{}|{}|{}|{}", std::mem::take(&mut *tr.log.borrow_mut()).trim_end(), res, self.calls.get(), hex(shown.as_bytes()))
    }
}
pub fn hex(b: &[u8]) -> String { let mut s = String::new(); for x in b { let _ = write!(s, "{:02x}", x); } s }
pub fn pan(e: Box<dyn std::any::Any + Send>) -> String {
    let t = if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "panic".into() };
    format!("B{}", hex(format!("panic: {}", t).as_bytes()))
}
fn seqs(t: &str) -> Vec<Vec<i64>> {
    t.split(';').map(|s| if s == "-" { vec![] } else { s.split(',').map(|x| x.parse().unwrap()).collect() }).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    if s == "-" { return vec![]; }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn one(line: &str) -> String {
    let f: Vec<&str> = line.split(' ').collect();
    let u: usize = f[1].parse().unwrap();
    match f[0] {
        "P" => run(u, &Src::new(seqs(f[2]), None)).join("\t"),
        "N" => {
            let v: usize = f[3].parse().unwrap();
            let inner: RefCell<Vec<String>> = RefCell::new(Vec::new());
            let hook = || { let r = run(v, &Src::new(seqs(f[4]), None)); inner.borrow_mut().extend(r); };
            let mut o = run(u, &Src::new(seqs(f[2]), Some(&hook)));
            let mut i = inner.into_inner();
            i.dedup();
            o.extend(i);
            o.join("\t")
        }
        "T" => {
            let n: usize = f[2].parse().unwrap();
            let barrier = std::sync::Barrier::new(n);
            let outs: Vec<String> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..n).map(|_| s.spawn(|| { barrier.wait(); let mut v = Vec::new(); for q in f[3].split(';') { v.extend(run(u, &Src::new(seqs(q), None))); } v.join("\t") })).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            outs.join("\t")
        }
        "L" => lex(u, std::str::from_utf8(&unhex(f[2])).unwrap(), f[3].parse().unwrap()),
        _ => panic!("command"),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // as much as a main thread has
    std::thread::Builder::new().stack_size(8 << 20).spawn(|| {
        let stdin = std::io::stdin();
        let mut out = std::io::stdout();
        for line in stdin.lock().lines() {
            let mut o = one(&line.unwrap());
            o.push('\n');
            out.write_all(o.as_bytes()).unwrap();
            out.flush().unwrap();
        }
    }).unwrap().join().unwrap();
}
"#;

fn rust_unit(local: usize, u: &Unit) -> String {
    let mut o = String::new();
    let d = u.dir.display();
    let _ = writeln!(o, "mod g{} {{", local);
    let _ = writeln!(o, "#[path = \"{}/tokens.rs\"] pub mod tokens;", d);
    let _ = writeln!(o, "use self::tokens::TokenType as TT;");
    let _ = write!(o, "fn ix(t: TT) -> i64 {{ match t {{ TT::EndOfFile => -1,");
    for (i, t) in u.spec.toks.iter().enumerate() {
        let _ = write!(o, " TT::{} => {},", rust_token(&t.name), i);
    }
    let _ = writeln!(o, " }} }}");
    if u.kind == Kind::RustLexer {
        let _ = writeln!(o, "#[path = \"{}/lexer.rs\"] pub mod lexer;", d);
        o.push_str(
            r#"
pub fn lex(src: &str, extra: usize) -> String {
    let r = crate::catch_unwind(crate::AssertUnwindSafe(|| {
        use std::fmt::Write as _;
        let mut l = lexer::Lexer::new(src);
        let mut o = String::new();
        let mut left = extra;
        let mut n = 0;
        loop {
            let k = match l.next() { Ok(t) => ix(t), Err(_) => -2 };
            let sp = l.span();
            let ok = sp.start <= sp.end && sp.end <= src.len() && src.is_char_boundary(sp.start) && src.is_char_boundary(sp.end);
            let sl = if ok { crate::hex(l.slice().as_bytes()) } else { String::from("ff") };
            let _ = write!(o, "{}:{}:{}:{} ", k, sp.start, sp.end, sl);
            n += 1;
            if k == -1 || (k == -2 && sp.start == sp.end) { if left == 0 { break; } left -= 1; }
            if n > 4 * src.len() + 50 + 4 * extra { break; }
        }
        o
    }));
    match r { Ok(o) => o.trim_end().to_string(), Err(_) => "-3:0:0:".to_string() }
}
}
"#,
        );
        return o;
    }
    let _ = writeln!(o, "#[path = \"{}/parser.rs\"] pub mod parser;", d);
    let _ = write!(o, "fn tk(i: i64) -> TT {{ match i {{");
    for (i, t) in u.spec.toks.iter().enumerate() {
        let _ = write!(o, " {} => TT::{},", i, rust_token(&t.name));
    }
    let _ = writeln!(o, " _ => TT::EndOfFile }} }}");
    let dt = if u.alg == A::Glr { "crate::DC" } else { "crate::D" };
    let _ = writeln!(o, "pub struct V<'a>(&'a crate::Tr);");
    let _ = writeln!(o, "impl<'a> parser::Visitor<{}> for V<'a> {{", dt);
    let _ = writeln!(o, "fn shift(&mut self, t: TT, d: {}) {{ self.0.shift(ix(t), d.0) }}", dt);
    for (i, r) in u.info.rules.iter().enumerate() {
        let _ = writeln!(o, "fn {}(&mut self) {{ self.0.red({}) }}", r.cb_rust, i);
    }
    let _ = writeln!(o, "}}");
    let _ = writeln!(o, "fn exp(v: &[TT]) -> String {{ v.iter().map(|t| ix(*t).to_string()).collect::<Vec<_>>().join(\",\") }}");
    let _ = writeln!(o, "pub fn run(src: &crate::Src) -> Vec<String> {{");
    let _ = writeln!(o, "let tr = crate::Tr::new(); let mut out = Vec::new();");
    if u.alg == A::Glr {
        let _ = writeln!(o, "let mut p = parser::Parser::new(|| {{ let (i, d) = src.next(); if i == -2 {{ Err(crate::E(d)) }} else {{ Ok((tk(i), {}(d))) }} }}, V(&tr));", dt);
    } else {
        let _ = writeln!(o, "let mut p = parser::Parser::new(|| {{ let (i, d) = src.next(); (tk(i), {}(d)) }}, V(&tr));", dt);
    }
    o.push_str("for k in 0..src.seqs.len() {\nsrc.begin(k, &tr);\n");
    o.push_str("let r = crate::catch_unwind(crate::AssertUnwindSafe(|| p.parse()));\n");
    o.push_str("let mut shown = String::new();\nlet res = match r {\n");
    if u.alg == A::Glr {
        o.push_str(
            r#"Ok(Ok(())) => "O".to_string(),
Ok(Err(e)) => { shown = e.to_string(); match e {
  parser::ParserError::UnexpectedToken { got, got_data, expected } => format!("U{}:{}:{}", ix(got), got_data.0, exp(&expected)),
  parser::ParserError::LexerError { inner } => format!("L{}", inner.0),
  parser::ParserError::UnexpectedTokens { got, expected } => format!("U{}", got.iter().zip(expected.iter()).map(|(g, x)| format!("{}:{}:{}", ix(g.0), g.1.0, exp(x))).collect::<Vec<_>>().join("/")),
} }
"#,
        );
    } else {
        o.push_str(
            r#"Ok(Ok(())) => "O".to_string(),
Ok(Err(e)) => { shown = e.to_string(); match e {
  parser::ParserError::UnexpectedToken { got, expected } => format!("U{}::{}", ix(got), exp(&expected)),
} }
"#,
        );
    }
    o.push_str(
        r#"Err(e) => { let t = crate::pan(e); out.push(src.end(&tr, &t, "")); for _ in k + 1..src.seqs.len() { out.push("|S|0|".to_string()); } return out; }
};
out.push(src.end(&tr, &res, &shown));
}
out
}
}
"#,
    );
    o
}

fn rust_driver(units: &[&Unit]) -> String {
    let mut o = String::from("#![allow(warnings)]\n");
    o.push_str(RUST_HEAD);
    o.push_str("fn run(u: usize, src: &Src) -> Vec<String> { match u {\n");
    for (i, u) in units.iter().enumerate() {
        if u.kind == Kind::RustParser {
            let _ = writeln!(o, "{} => g{}::run(src),", i, i);
        }
    }
    o.push_str("_ => panic!(\"unit\") } }\nfn lex(u: usize, s: &str, n: usize) -> String { match u {\n");
    for (i, u) in units.iter().enumerate() {
        if u.kind == Kind::RustLexer {
            let _ = writeln!(o, "{} => g{}::lex(s, n),", i, i);
        }
    }
    o.push_str("_ => panic!(\"unit\") } }\n");
    for (i, u) in units.iter().enumerate() {
        o.push_str(&rust_unit(i, u));
    }
    o
}

const CPP_HEAD: &str = r#"
#include <bits/stdc++.h>
#include <unistd.h>
namespace drv {
using std::string; using std::vector;
static const bool padded = getenv("LAPEXMON_PADDED") != nullptr;
struct Tr { string log; size_t n = 0, limit = 0;
  void tick() { if (++n > limit) throw std::logic_error("more callbacks than any derivation has"); }
  void shift(long t, const string& d) { tick(); log += "s" + std::to_string(t) + ":" + d + " "; }
  void num(char c, long r) { tick(); log += c + std::to_string(r) + " "; } };
struct Src { vector<vector<long>> seqs; size_t k = 0, i = 0, calls = 0; std::function<void()> hook;
  void begin(size_t kk, Tr& tr) { k = kk; i = 0; calls = 0; tr.n = 0; tr.limit = 3000 + 400 * seqs[k].size(); tr.log.clear();
    // the visitor throws after a number of callbacks
    if (!seqs[k].empty() && seqs[k][0] <= -100) { tr.limit = -100 - seqs[k][0]; i = 1; } }
  std::pair<long, string> next() {
    if (hook) hook();
    auto& s = seqs[k]; size_t j = i;
    if (++calls > s.size() + 60) throw std::logic_error("the token source is asked again and again after the end");
    string d = std::to_string(1000 * k + j);
    if (padded) d += string(60, '.');
    if (j < s.size() && s[j] == -3) { i++; throw std::runtime_error("the token source throws"); }
    if (j < s.size()) { i++; return {s[j], d}; }
    return {-1, d}; } };
string hex(const string& b) { static const char* h = "0123456789abcdef"; string o; for (unsigned char c : b) { o += h[c >> 4]; o += h[c & 15]; } return o; }
string line(Tr& tr, Src& src, const string& res) { while (!tr.log.empty() && tr.log.back() == ' ') tr.log.pop_back(); return tr.log + "|" + res + "|" + std::to_string(src.calls) + "|"; }
vector<string> split(const string& s, char c) { vector<string> v; string t; for (char x : s) { if (x == c) { v.push_back(t); t.clear(); } else t += x; } v.push_back(t); return v; }
vector<vector<long>> seqs(const string& t) { vector<vector<long>> v; for (auto& s : split(t, ';')) { vector<long> w; if (s != "-") for (auto& x : split(s, ',')) w.push_back(atol(x.c_str())); v.push_back(w); } return v; }
string unhex(const string& s) { string o; if (s == "-") return o; for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16); return o; }
template <class F> vector<string> drive(Src& src, Tr& tr, F parse) {
  vector<string> out;
  for (size_t k = 0; k < src.seqs.size(); k++) {
    src.begin(k, tr);
    try { parse(); out.push_back(line(tr, src, "O")); }
    catch (std::runtime_error& e) { out.push_back(line(tr, src, "T" + hex(e.what()))); }
    catch (std::exception& e) { out.push_back(line(tr, src, "B" + hex(string("exception: ") + e.what()))); }
    catch (...) { out.push_back(line(tr, src, "B" + hex("unknown exception"))); }
  }
  return out; }
}
"#;

const CPP_MAIN: &str = r#"
namespace drv {
string join(const vector<string>& v) { string o; for (size_t i = 0; i < v.size(); i++) { if (i) o += "\t"; o += v[i]; } return o; }
string one(const string& l) {
  auto f = split(l, ' '); size_t u = atol(f[1].c_str());
  if (f[0] == "P") { Src s; s.seqs = seqs(f[2]); return join(run(u, s)); }
  if (f[0] == "N") { size_t v = atol(f[3].c_str()); vector<string> inner; Src s; s.seqs = seqs(f[2]);
    s.hook = [&] { Src t; t.seqs = seqs(f[4]); for (auto& x : run(v, t)) inner.push_back(x); };
    auto o = run(u, s); inner.erase(std::unique(inner.begin(), inner.end()), inner.end()); for (auto& x : inner) o.push_back(x); return join(o); }
  if (f[0] == "T") { size_t n = atol(f[2].c_str()); vector<string> outs(n); vector<std::thread> th; std::atomic<size_t> ready{0};
    for (size_t i = 0; i < n; i++) th.emplace_back([&, i] { ready++; while (ready < n) {} vector<string> v; for (auto& q : split(f[3], ';')) { Src s; s.seqs = seqs(q); for (auto& x : run(u, s)) v.push_back(x); } outs[i] = join(v); });
    for (auto& t : th) t.join(); return join(outs); }
  return lex(u, unhex(f[2]), atol(f[3].c_str()));
}
}
int main() {
  std::string l;
  while (std::getline(std::cin, l)) { std::string o = drv::one(l) + "\n"; size_t p = 0; while (p < o.size()) { ssize_t n = write(1, o.data() + p, o.size() - p); if (n <= 0) return 9; p += n; } }
  return 0;
}
"#;

fn cpp_unit(local: usize, u: &Unit) -> String {
    let mut o = String::new();
    let d = u.dir.display();
    let _ = writeln!(o, "namespace g{} {{", local);
    let _ = writeln!(o, "#include \"{}/tokens.h\"\n#include \"{}/tokens.cpp\"", d, d);
    let _ = write!(o, "long ix(lexer::TokenType t) {{ switch (t) {{ case lexer::TokenType::TK_EOF: return -1; case lexer::TokenType::TK_ERR: return -2;");
    for (i, t) in u.spec.toks.iter().enumerate() {
        let _ = write!(o, " case lexer::TokenType::{}: return {};", cpp_token(&t.name), i);
    }
    let _ = writeln!(o, " }} return -99; }}");
    if u.kind == Kind::CppLexer {
        let _ = writeln!(o, "#include \"{}/lexer.h\"\n#include \"{}/lexer.cpp\"", d, d);
        o.push_str(
            r#"
std::string lex(const std::string& s, long extra) {
  std::istringstream in(s); lexer::Lexer l(in); std::string o; size_t n = 0; long left = extra;
  for (;;) { long k = ix(l.next()); if (!o.empty()) o += " ";
    o += std::to_string(k) + ":" + std::to_string(k >= 0 ? l.start() : 0) + ":" + std::to_string(k >= 0 ? l.end() : 0) + ":";
    n++; if (k < 0) { if (left-- <= 0) break; } if (n > 4 * s.size() + 50 + 4 * extra) break; }
  return o; }
}
"#,
        );
        return o;
    }
    for f in ["visitor.h", "parser.h", "parser_impl.h", "parser.cpp"] {
        let _ = writeln!(o, "#include \"{}/{}\"", d, f);
    }
    let _ = write!(o, "lexer::TokenType tk(long i) {{ switch (i) {{ case -2: return lexer::TokenType::TK_ERR;");
    for (i, t) in u.spec.toks.iter().enumerate() {
        let _ = write!(o, " case {}: return lexer::TokenType::{};", i, cpp_token(&t.name));
    }
    let _ = writeln!(o, " }} return lexer::TokenType::TK_EOF; }}");
    let _ = writeln!(o, "struct V : parser::Visitor<std::string> {{ drv::Tr& tr; V(drv::Tr& t) : tr(t) {{}}");
    if u.alg == A::Ll1 {
        let _ = writeln!(o, "void token(lexer::TokenType t, std::string d) override {{ tr.shift(ix(t), d); }}");
        for (i, n) in u.spec.nt_names().iter().enumerate() {
            let _ = writeln!(o, "void enter_{}() override {{ tr.num('e', {}); }} void exit_{}() override {{ tr.num('x', {}); }}", n, i, n, i);
        }
    } else {
        let _ = writeln!(o, "void shift(lexer::TokenType t, std::string d) override {{ tr.shift(ix(t), d); }}");
        for (i, r) in u.info.rules.iter().enumerate() {
            let _ = writeln!(o, "void {}() override {{ tr.num('r', {}); }}", r.cb_cpp, i);
        }
    }
    o.push_str(
        r#"};
std::vector<std::string> run(drv::Src& src) {
  drv::Tr tr; V v(tr);
  parser::Parser<std::string> p([&]() -> std::pair<lexer::TokenType, std::string> { auto x = src.next(); return {tk(x.first), x.second}; }, v);
  return drv::drive(src, tr, [&] { p.parse(); });
}
}
"#,
    );
    o
}

fn cpp_driver(units: &[&Unit]) -> String {
    let mut o = String::from(CPP_HEAD);
    for (i, u) in units.iter().enumerate() {
        o.push_str(&cpp_unit(i, u));
    }
    o.push_str("namespace drv { vector<string> run(size_t u, Src& s) { switch (u) {\n");
    for (i, u) in units.iter().enumerate() {
        if u.kind == Kind::CppParser {
            let _ = writeln!(o, "case {}: return g{}::run(s);", i, i);
        }
    }
    o.push_str("} abort(); }\nstring lex(size_t u, const string& s, long n) { switch (u) {\n");
    for (i, u) in units.iter().enumerate() {
        if u.kind == Kind::CppLexer {
            let _ = writeln!(o, "case {}: return g{}::lex(s, n);", i, i);
        }
    }
    o.push_str("} abort(); }\n}\n");
    o.push_str(CPP_MAIN);
    o
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum San {
    None,
    AddressUndefined,
    Thread,
    /// Rust units interpreted by Miri
    Miri,
    /// C++ units run under memcheck
    Valgrind,
}

/// The nightly toolchain, which has Miri.
pub fn nightly() -> PathBuf {
    let out = Run::new("rustc").env("RUSTUP_TOOLCHAIN", "nightly-x86_64-unknown-linux-gnu").args(["--print", "sysroot"]).timeout(60).run();
    PathBuf::from(out.map(|o| o.out_text().trim().to_string()).unwrap_or_default())
}

pub fn miri_sysroot() -> String {
    std::env::var("MIRI_SYSROOT").unwrap_or("/verif/target/miri-sysroot".into())
}

pub fn rustc(src: &Path, out: &Path, extra: &[&str]) -> std::io::Result<Out> {
    Run::new("rustc")
        .args(["--edition", "2021", "-C", "debuginfo=0", "-C", "overflow-checks=on", "-C", "debug-assertions=on"])
        .args(["--cap-lints", "allow", "-C", "codegen-units=2"])
        .args(extra)
        .arg("-o")
        .arg(out)
        .arg(src)
        .timeout(400)
        .run()
}

pub fn cpp_flags(san: San) -> Vec<&'static str> {
    let mut v = vec!["-std=c++17", "-w", "-O0", "-g1"];
    match san {
        San::None | San::Miri | San::Valgrind => {}
        San::AddressUndefined => v.extend([
            "-fsanitize=address,undefined",
            "-fno-sanitize-recover=all",
            "-fno-omit-frame-pointer",
            "-D_GLIBCXX_ASSERTIONS",
            "-D_GLIBCXX_SANITIZE_VECTOR=1",
            "-D_GLIBCXX_SANITIZE_STD_ALLOCATOR=1",
        ]),
        San::Thread => v.extend(["-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS"]),
    }
    v
}

fn build(units: &[&Unit], dir: &Path, tag: &str, san: San) -> Result<PathBuf, String> {
    let exe = dir.join(format!("drv-{}", tag));
    let cpp = matches!(units[0].kind, Kind::CppLexer | Kind::CppParser);
    let out = if cpp {
        let src = dir.join(format!("drv-{}.cpp", tag));
        std::fs::write(&src, cpp_driver(units)).map_err(|e| e.to_string())?;
        Run::new("clang++")
            .args(cpp_flags(san))
            .arg("-o")
            .arg(&exe)
            .arg(&src)
            .arg("-pthread")
            .timeout(400)
            .run()
    } else {
        let src = dir.join(format!("drv_{}.rs", tag));
        std::fs::write(&src, rust_driver(units)).map_err(|e| e.to_string())?;
        if san == San::Miri {
            return Ok(src);
        }
        rustc(&src, &exe, &[])
    }
    .map_err(|e| format!("cannot start the compiler: {}", e))?;
    if out.ok() && exe.exists() {
        Ok(exe)
    } else {
        let mut t = out.err_text();
        let cut: String = t.chars().take(3000).collect();
        t = cut;
        Err(format!("compiler: {}\n{}", out.describe(), t))
    }
}

pub struct Batch {
    pub units: Vec<Unit>,
    pub dir: PathBuf,
    pub san: San,
    pub leaks: bool,
    /// C++ token data are long enough to live on the heap
    pub padded: bool,
    next: usize,
    /// refusals and panics of the generator: (name, grammar, outcome)
    pub refused: Vec<(String, String, Gen)>,
}

pub struct Ran {
    pub replies: Vec<Reply>,
    /// units whose generated code does not compile
    pub broken: Vec<(usize, String)>,
    /// processes that ended badly after the last case (leaks)
    pub at_exit: Vec<String>,
}

impl Batch {
    pub fn new(ctx: &Ctx, name: &str, san: San) -> Batch {
        let dir = ctx.work.join(name);
        let _ = std::fs::create_dir_all(&dir);
        Batch { units: Vec::new(), dir, san, leaks: false, padded: false, next: 0, refused: Vec::new() }
    }

    /// Generate; the index of the unit, or None if the generator refused.
    pub fn add(&mut self, name: &str, spec: &Spec, cfg: Cfg, alg: A, kind: Kind) -> Option<usize> {
        let text = spec.text();
        let id = self.next;
        self.next += 1;
        let dir = self.dir.join(format!("u{}", id));
        std::fs::create_dir_all(&dir).expect("directory");
        let gpath = dir.join("grammar.lapex");
        std::fs::write(&gpath, &text).expect("grammar file");
        let lexer = matches!(kind, Kind::RustLexer | Kind::CppLexer);
        let lang = if matches!(kind, Kind::RustLexer | Kind::RustParser) { L::Rust } else { L::Cpp };
        let g = generate(lexer, alg, false, &gpath, &dir, lang);
        if !g.done() {
            self.refused.push((name.to_string(), text, g));
            return None;
        }
        let info = match Info::of(&text, &spec.toks) {
            Ok(i) => i,
            Err(e) => {
                self.refused.push((name.to_string(), text, Gen::Panic(e)));
                return None;
            }
        };
        self.units.push(Unit {
            id,
            name: name.to_string(),
            spec: spec.clone(),
            cfg,
            info,
            alg,
            kind,
            dir,
            grammar_text: text,
        });
        Some(self.units.len() - 1)
    }

    pub fn run(&self, ctx: &Ctx, cases: &[Case]) -> Ran {
        let n = self.units.len();
        let mut chunks: Vec<Vec<usize>> = Vec::new();
        for cpp in [false, true] {
            let mine: Vec<usize> = (0..n)
                .filter(|i| matches!(self.units[*i].kind, Kind::CppLexer | Kind::CppParser) == cpp)
                .collect();
            if mine.is_empty() {
                continue;
            }
            // big parsers are spread evenly
            let k = threads().min(mine.len());
            let mut mine: Vec<(usize, usize)> =
                mine.into_iter().map(|i| (dir_size(&self.units[i].dir), i)).collect();
            mine.sort();
            mine.reverse();
            let mut cs: Vec<(usize, Vec<usize>)> = vec![(0, Vec::new()); k];
            for (sz, i) in mine {
                let c = cs.iter_mut().min_by_key(|c| c.0).unwrap();
                c.0 += sz + 2000;
                c.1.push(i);
            }
            chunks.extend(cs.into_iter().map(|c| c.1));
        }
        // nested cases need both units in one process: keep pairs together by construction of the caller
        let results = par_map(chunks.len(), |ci| {
            let mut members = chunks[ci].clone();
            members.sort();
            let mut broken = Vec::new();
            let exe = loop {
                if members.is_empty() {
                    break None;
                }
                let us: Vec<&Unit> = members.iter().map(|i| &self.units[*i]).collect();
                match build(&us, &self.dir, &format!("c{}", ci), self.san) {
                    Ok(e) => break Some(e),
                    Err(all) => {
                        // which ones are to blame?
                        let bad: Vec<(usize, String)> = members
                            .iter()
                            .filter_map(|i| {
                                build(&[&self.units[*i]], &self.dir, &format!("s{}", i), self.san)
                                    .err()
                                    .map(|e| (*i, e))
                            })
                            .collect();
                        if bad.is_empty() {
                            broken.push((members[0], format!("only together with others: {}", all)));
                            break None;
                        }
                        members.retain(|m| !bad.iter().any(|b| b.0 == *m));
                        broken.extend(bad);
                    }
                }
            };
            let mut replies: Vec<(usize, Reply)> = Vec::new();
            let mut at_exit = Vec::new();
            if let Some(exe) = exe {
                let local: BTreeMap<usize, usize> = members.iter().enumerate().map(|(a, b)| (*b, a)).collect();
                let mine: Vec<usize> = (0..cases.len())
                    .filter(|c| {
                        local.contains_key(&cases[*c].unit())
                            && !matches!(&cases[*c], Case::Nest(_, _, v, _) if !local.contains_key(v))
                    })
                    .collect();
                self.drive(ctx, &exe, cases, &mine, &local, &mut replies, &mut at_exit);
            }
            (replies, broken, at_exit)
        });
        let mut out = Ran { replies: vec![Reply::Skipped; cases.len()], broken: Vec::new(), at_exit: Vec::new() };
        for (r, b, x) in results {
            for (i, rep) in r {
                out.replies[i] = rep;
            }
            out.broken.extend(b);
            out.at_exit.extend(x);
        }
        out
    }

    #[allow(clippy::too_many_arguments)]
    fn drive(
        &self,
        ctx: &Ctx,
        exe: &Path,
        cases: &[Case],
        mine: &[usize],
        local: &BTreeMap<usize, usize>,
        replies: &mut Vec<(usize, Reply)>,
        at_exit: &mut Vec<String>,
    ) {
        let mut from = 0;
        let mut crashes = 0;
        while from < mine.len() {
            let mut input = String::new();
            for c in &mine[from..] {
                input.push_str(&cases[*c].line(local));
                input.push('\n');
            }
            let limit = if ctx.thorough || matches!(self.san, San::Miri | San::Valgrind) { 300 } else { 90 };
            let run = match self.san {
                San::Miri => Run::new(nightly().join("bin/miri"))
                    .args(["--sysroot", &miri_sysroot(), "--edition", "2021", "--cap-lints", "allow", "-Zmiri-disable-isolation"])
                    .arg(exe),
                San::Valgrind => Run::new("valgrind")
                    .args(["-q", "--error-exitcode=99", "--leak-check=full", "--errors-for-leak-kinds=definite"])
                    .arg(exe),
                _ => Run::new(exe),
            };
            let out = run
                .stdin(input.as_bytes())
                .env(
                    "ASAN_OPTIONS",
                    if self.leaks {
                        "detect_leaks=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1"
                    } else {
                        "detect_leaks=0:abort_on_error=0:exitcode=99"
                    },
                )
                .env("UBSAN_OPTIONS", "print_stacktrace=1:exitcode=99")
                .env("TSAN_OPTIONS", "halt_on_error=1:exitcode=99")
                .env("RUST_MIN_STACK", "67108864");
            let out = if self.padded { out.env("LAPEXMON_PADDED", "1") } else { out };
            let out = out
                .timeout(limit)
                .run();
            let out = match out {
                Ok(o) => o,
                Err(e) => panic!("cannot run {}: {}", exe.display(), e),
            };
            let text = out.out_text();
            let mut done = 0;
            for (l, c) in text.split_inclusive('\n').zip(&mine[from..]) {
                if !l.ends_with('\n') {
                    break;
                }
                let l = &l[..l.len() - 1];
                match parse_reply(&cases[*c], l) {
                    Some(r) => replies.push((*c, r)),
                    None => replies.push((*c, Reply::Crash(format!("garbled output: {}", l)))),
                }
                done += 1;
            }
            from += done;
            if from < mine.len() {
                let why = format!("{}\n{}", out.describe(), tail(&out.err_text(), 3500));
                replies.push((mine[from], Reply::Crash(why)));
                from += 1;
                crashes += 1;
                if crashes >= 3 {
                    break;
                }
            } else if !out.ok() {
                at_exit.push(format!("{}\n{}", out.describe(), tail(&out.err_text(), 3500)));
            }
        }
    }
}

fn tail(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut i = n;
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    s[..i].to_string()
}

fn dir_size(d: &Path) -> usize {
    std::fs::read_dir(d)
        .map(|r| r.flatten().filter_map(|e| e.metadata().ok()).map(|m| m.len() as usize).sum())
        .unwrap_or(0)
}

impl Obs {
    pub fn none() -> Obs {
        Obs::skipped()
    }
}
