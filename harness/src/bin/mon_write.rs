//! mon_write GRAMMAR LANGUAGE ALGORITHM SEED MOST: part of C21.
//! Runs the code generators with writers of its own, makes one call of a writer fail per run, and
//! prints what was reported and what arrived:
//!   total <operations>
//!   run <fault> <failed|success> <complete|incomplete: which file> <where>
use lapex_codegen::GeneratedCodeWriter;
use lapex_cpp_codegen::{CppGLRParserCodeGen, CppLLParserCodeGen, CppLRParserCodeGen, CppLexerCodeGen};
use lapex_input::LapexInputParser;
use lapex_input_gen::GeneratedLapexInputParser;
use lapex_lexer::LexerCodeGen;
use lapex_parser::grammar::Grammar;
use lapex_parser::ll_parser::LLParserCodeGen;
use lapex_parser::lr_parser::{GenerationResult, LRParserCodeGen};
use lapex_rust_codegen::{RustGLRParserCodeGen, RustLLParserCodeGen, RustLRParserCodeGen, RustLexerCodeGen};
use lapexmon::glue::guard;
use lapexmon::util::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{Error, ErrorKind, Write};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    /// this one operation fails
    Once(usize),
    /// this one and all later ones
    From(usize),
    /// a write takes nothing
    Zero(usize),
    /// a write takes half of what it is given, the next one fails
    Half(usize),
}

#[derive(Default)]
struct State {
    ops: usize,
    /// bytes that made it
    files: BTreeMap<&'static str, Vec<u8>>,
    /// texts the faults lost
    lost: BTreeMap<&'static str, usize>,
    place: String,
    half: bool,
    /// the file of every operation, in a run without fault
    of: Vec<&'static str>,
}

struct Target {
    name: &'static str,
    fault: Fault,
    state: Rc<RefCell<State>>,
    held: Vec<u8>,
}

impl Target {
    /// Counts an operation; Some if it is the one to disturb.
    fn op(&self, what: &str, text: &[u8]) -> Option<Fault> {
        let mut s = self.state.borrow_mut();
        let n = s.ops;
        s.ops += 1;
        if self.fault == Fault::None {
            s.of.push(self.name);
        }
        let hit = match self.fault {
            Fault::None => false,
            Fault::Once(k) | Fault::Zero(k) => n == k,
            Fault::From(k) => n >= k,
            Fault::Half(k) => n == k || (n > k && std::mem::take(&mut s.half)),
        };
        if hit {
            if s.place.is_empty() {
                s.place = format!("{} {} {:?}", what, self.name, String::from_utf8_lossy(&text[..text.len().min(60)]));
            }
            if matches!(self.fault, Fault::Half(k) if k != n) {
                return Some(Fault::Once(n));
            }
            return Some(self.fault);
        }
        None
    }
}

impl Write for Target {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        match self.op("write", buf) {
            None => {
                self.held.extend_from_slice(buf);
                Ok(buf.len())
            }
            Some(Fault::Zero(_)) => Ok(0),
            Some(Fault::Half(_)) if buf.len() > 1 => {
                let k = buf.len() / 2;
                self.held.extend_from_slice(&buf[..k]);
                self.state.borrow_mut().half = true;
                Ok(k)
            }
            Some(_) => Err(Error::new(ErrorKind::Other, "injected")),
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        // like a buffered file: a failing flush may lose what is held
        let r = self.op("flush", b"");
        let held = std::mem::take(&mut self.held);
        let mut s = self.state.borrow_mut();
        if r.is_some() && !held.is_empty() {
            *s.lost.entry(self.name).or_default() += held.len();
            return Err(Error::new(ErrorKind::Other, "injected"));
        }
        s.files.entry(self.name).or_default().extend(held);
        Ok(())
    }
}

impl Drop for Target {
    fn drop(&mut self) {
        // whoever lets a buffered file go without flushing it hears of no error
        if !self.held.is_empty() {
            let _ = self.flush();
        }
    }
}

trait Said {
    fn well(&self) -> bool;
}
impl Said for () {
    fn well(&self) -> bool {
        true
    }
}
impl<T, E> Said for Result<T, E> {
    fn well(&self) -> bool {
        self.is_ok()
    }
}

fn once(fault: Fault, run: &dyn Fn(&mut GeneratedCodeWriter) -> bool) -> (bool, State) {
    let state = Rc::new(RefCell::new(State::default()));
    let s = state.clone();
    let said = guard(|| {
        let mut gen = GeneratedCodeWriter::with_default(move |name| {
            let t = Target { name, fault, state: s.clone(), held: Vec::new() };
            if t.op("open", b"").is_some() {
                return Err(Error::new(ErrorKind::Other, "injected"));
            }
            s.borrow_mut().files.entry(name).or_default().clear();
            Ok(t)
        });
        run(&mut gen)
    });
    let well = matches!(said, Ok(true));
    let got = std::mem::take(&mut *state.borrow_mut());
    (well, got)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let arg: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&arg[1]).unwrap();
    let cpp = arg[2] == "cpp";
    let alg = arg[3].as_str();
    let seed: u64 = arg[4].parse().unwrap();
    let most: usize = arg[5].parse().unwrap();
    let ready = guard(|| {
        let rules = match (GeneratedLapexInputParser {}).parse_lapex(&text) {
            Ok(r) => r,
            Err(_) => return,
        };
        let alphabet = lapex_lexer::generate_alphabet(&rules.token_rules);
        let (entry, nfa) = lapex_lexer::generate_nfa(&alphabet, &rules.token_rules);
        let dfa = match lapex_lexer::apply_precedence_to_dfa(nfa.powerset_construction(entry)) {
            Ok(d) => d,
            Err(_) => return,
        };
        let ranges = alphabet.get_ranges();
        let grammar = match Grammar::from_rule_set(&rules) {
            Ok(g) => g,
            Err(_) => return,
        };
        let lexer: &dyn Fn(&mut GeneratedCodeWriter) -> bool = &|g| {
            if cpp {
                let c = CppLexerCodeGen::new();
                c.generate_tokens(&rules.token_rules, g).well() && c.generate_lexer(&rules.token_rules, &ranges, &dfa, g).well()
            } else {
                let c = RustLexerCodeGen::new();
                c.generate_tokens(&rules.token_rules, g).well() && c.generate_lexer(&rules.token_rules, &ranges, &dfa, g).well()
            }
        };
        if alg == "ll1" {
            let table = match lapex_parser::ll_parser::generate_table(&grammar) {
                Ok(t) => t,
                Err(_) => return,
            };
            faults(seed, most, &|g| {
                lexer(g)
                    && if cpp {
                        CppLLParserCodeGen::new().generate_code(&grammar, &table, g).well()
                    } else {
                        RustLLParserCodeGen::new().generate_code(&grammar, &table, g).well()
                    }
            });
            return;
        }
        use lapex_parser::lr_parser::generate_table;
        let table = if alg == "lr0" {
            match generate_table::<0>(&grammar, false, false) {
                GenerationResult::NoConflicts(t) => t,
                _ => return,
            }
        } else {
            match generate_table::<1>(&grammar, alg == "glr", alg != "lr1") {
                GenerationResult::NoConflicts(t) => t,
                GenerationResult::AllowedConflicts { table, .. } => table,
                _ => return,
            }
        };
        faults(seed, most, &|g| {
            lexer(g)
                && g.generate_code("table", |o| lapex_parser::lr_parser::output_table(&grammar, &table, o)).well()
                && match (cpp, alg) {
                    (true, "glr") => CppGLRParserCodeGen::new().generate_code(&grammar, &table, g).well(),
                    (true, _) => CppLRParserCodeGen::new().generate_code(&grammar, &table, g).well(),
                    (false, "glr") => RustGLRParserCodeGen::new().generate_code(&grammar, &table, g).well(),
                    (false, _) => RustLRParserCodeGen::new().generate_code(&grammar, &table, g).well(),
                }
        });
    });
    if ready.is_err() {
        println!("refused");
    }
}

fn faults(seed: u64, most: usize, run: &dyn Fn(&mut GeneratedCodeWriter) -> bool) {
    let (well, want) = once(Fault::None, run);
    if !well {
        println!("refused");
        return;
    }
    println!("total\t{}\t{}", want.ops, want.files.len());
    let mut rng = Rng::new(seed);
    // as many from every file
    let mut per: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
    for (k, f) in want.of.iter().enumerate() {
        per.entry(f).or_default().push(k);
    }
    let share = most / per.len().max(1) + 1;
    let mut at = Vec::new();
    for v in per.values_mut() {
        rng.shuffle(v);
        at.extend(v.iter().copied().take(share));
    }
    for k in at {
        for f in [Fault::Once(k), *rng.pick(&[Fault::From(k), Fault::Zero(k), Fault::Half(k)])] {
            let (well, got) = once(f, run);
            let bad = want.files.iter().find(|(n, b)| got.files.get(*n) != Some(*b)).map(|(n, _)| *n);
            println!(
                "run\t{:?}\t{}\t{}\t{}",
                f,
                if well { "success" } else { "failed" },
                bad.unwrap_or("complete"),
                got.place
            );
        }
    }
}
