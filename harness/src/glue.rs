//! The contact with the code under test: generation, the derived rules, the emitted names.
use crate::cfg::{Cfg, Rule, S};
use crate::model::*;
use lapex::{Language, ParsingAlgorithm};
use lapex_input::{LapexInputParser, RuleSet};
use lapex_input_gen::GeneratedLapexInputParser;
use lapex_parser::grammar::{Grammar, Symbol};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".to_string()
    }
}

pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum A {
    Ll1,
    Lr0,
    Lalr,
    Lr1,
    Glr,
}

impl A {
    pub fn name(self) -> &'static str {
        match self {
            A::Ll1 => "ll1",
            A::Lr0 => "lr0",
            A::Lalr => "lalr",
            A::Lr1 => "lr1",
            A::Glr => "glr",
        }
    }
    pub fn lapex(self) -> ParsingAlgorithm {
        match self {
            A::Ll1 => ParsingAlgorithm::LL1,
            A::Lr0 => ParsingAlgorithm::LR0,
            A::Lalr => ParsingAlgorithm::LALR,
            A::Lr1 => ParsingAlgorithm::LR1,
            A::Glr => ParsingAlgorithm::GLR,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum L {
    Rust,
    Cpp,
}

/// How a generation ended: refusals carry the rendered errors (or the panic message).
#[derive(Debug, Clone)]
pub enum Gen {
    Done,
    Errors(Vec<String>),
    Panic(String),
}

impl Gen {
    pub fn done(&self) -> bool {
        matches!(self, Gen::Done)
    }
    pub fn text(&self) -> String {
        match self {
            Gen::Done => "success".into(),
            Gen::Errors(v) => v.join("\n"),
            Gen::Panic(s) => format!("panic: {}", s),
        }
    }
}

pub fn generate(lexer: bool, alg: A, table: bool, grammar: &Path, target: &Path, lang: L) -> Gen {
    let l = match lang {
        L::Rust => Language::Rust,
        L::Cpp => Language::Cpp,
    };
    match guard(|| {
        lapex::generate(lexer, alg.lapex(), table, grammar, target, l, GeneratedLapexInputParser {})
            .map_err(|v| v.iter().map(|e| e.to_string()).collect::<Vec<_>>())
    }) {
        Ok(Ok(())) => Gen::Done,
        Ok(Err(v)) => Gen::Errors(v),
        Err(p) => Gen::Panic(p),
    }
}

pub fn read_rules(text: &str) -> Result<RuleSet<'_>, String> {
    match guard(|| GeneratedLapexInputParser {}.parse_lapex(text).map_err(|e| format!("{:?}", e))) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

#[derive(Clone, Debug)]
pub struct IRule {
    pub lhs: u16,
    /// terminals carry the token index of the specification
    pub rhs: Vec<S>,
    pub cb_rust: String,
    pub cb_cpp: String,
    pub display: String,
    /// the production it comes from: pattern (normalised) and tag
    pub pat: Pat,
    pub tag: Option<String>,
}

/// The plain rules the generator derives, with the callbacks that belong to them.
#[derive(Clone, Debug)]
pub struct Info {
    pub rules: Vec<IRule>,
    /// names of the non-terminals; None: made up by the generator
    pub nts: Vec<Option<String>>,
    pub entry: u16,
}

impl Info {
    pub fn of(text: &str, toks: &[Tok]) -> Result<Info, String> {
        let rs = read_rules(text)?;
        guard(|| {
            let g = Grammar::from_rule_set(&rs).map_err(|e| e.to_string())?;
            Info::of_grammar(&g, toks)
        })?
    }

    pub fn of_grammar(g: &Grammar, toks: &[Tok]) -> Result<Info, String> {
        let mut term: BTreeMap<Symbol, u16> = BTreeMap::new();
        for (s, n) in g.terminals_with_names() {
            let i = toks.iter().position(|t| t.name == n).ok_or(format!("unknown token {}", n))?;
            term.insert(s, i as u16);
        }
        let nt = |s: &Symbol| -> Option<u16> {
            match s {
                Symbol::NonTerminal(i) => Some(*i),
                _ => None,
            }
        };
        let mut max = 0;
        let mut raw: Vec<(u16, Vec<S>, Option<String>, String, Pat)> = Vec::new();
        for r in g.rules().iter() {
            let l = r.lhs().ok_or("rule without a left side")?;
            let l = nt(&l).ok_or("left side is no non-terminal")?;
            max = max.max(l);
            let mut rhs = Vec::new();
            for s in r.rhs().iter() {
                match s {
                    Symbol::Epsilon => {}
                    Symbol::Terminal(_) => rhs.push(S::T(*term.get(s).ok_or("unknown terminal")?)),
                    Symbol::NonTerminal(i) => {
                        max = max.max(*i);
                        rhs.push(S::N(*i))
                    }
                    Symbol::End => return Err("end marker inside a rule".into()),
                }
            }
            let inner = &r.rule().inner;
            let pat = Pat::from_lapex(&inner.pattern).normal();
            raw.push((l, rhs, inner.tag.map(|t| t.to_string()), r.display(g).to_string(), pat));
        }
        let nts: Vec<Option<String>> = (0..=max)
            .map(|i| g.get_production_name(&Symbol::NonTerminal(i)).map(|s| s.to_string()))
            .collect();
        let mut count = vec![0usize; nts.len()];
        raw.iter().for_each(|r| count[r.0 as usize] += 1);
        let mut seen = vec![0usize; nts.len()];
        let mut rules = Vec::new();
        for (l, rhs, tag, display, pat) in raw {
            let li = l as usize;
            seen[li] += 1;
            let base = nts[li].clone().unwrap_or(format!("anon{}", l));
            let (cb_rust, cb_cpp) = if count[li] == 1 {
                (format!("reduce_{}", base), format!("reduce_{}", base))
            } else {
                let num = format!("reduce_{}_{}", base, seen[li]);
                let t = match (&nts[li], &tag) {
                    (Some(_), Some(t)) => format!("reduce_{}_{}", base, t),
                    _ => num.clone(),
                };
                (t, num)
            };
            rules.push(IRule { lhs: l, rhs, cb_rust, cb_cpp, display, pat, tag });
        }
        let entry = nt(g.entry_point()).ok_or("entry is no non-terminal")?;
        Ok(Info { rules, nts, entry })
    }

    /// The derived rules as a grammar of ours.
    pub fn cfg(&self, nt: usize) -> Cfg {
        let rules = self.rules.iter().map(|r| Rule { lhs: r.lhs, rhs: r.rhs.clone() }).collect();
        let names = self.nts.iter().enumerate().map(|(i, n)| n.clone().unwrap_or(format!("anon{}", i))).collect();
        Cfg::new(nt, self.nts.len(), rules, self.entry, names)
    }
}

pub fn camel(name: &str) -> String {
    name.split('_')
        .filter(|s| !s.is_empty())
        .map(|s| {
            let mut c = s.chars();
            let h = c.next().unwrap().to_ascii_uppercase();
            format!("{}{}", h, c.as_str().to_ascii_lowercase())
        })
        .collect()
}

pub fn rust_token(name: &str) -> String {
    format!("Tk{}", camel(name))
}

pub fn cpp_token(name: &str) -> String {
    format!("TK_{}", name)
}
