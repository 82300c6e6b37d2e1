//! Grammars of our own: syntax, printing in any layout, meaning as sets of token sequences.
use crate::rx::Rx;
use crate::util::Rng;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Pat {
    Seq(Vec<Pat>),
    Alt(Vec<Pat>),
    Star(Box<Pat>),
    Plus(Box<Pat>),
    Opt(Box<Pat>),
    Ref(String),
    Eps,
}

#[derive(Clone, Debug)]
pub enum TokPat {
    Lit(String),
    Re(Rx),
    /// text between the slashes
    Raw(String),
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub name: String,
    pub prec: Option<u32>,
    pub pat: TokPat,
}

#[derive(Clone, Debug)]
pub struct Prod {
    pub name: String,
    pub tag: Option<String>,
    pub pat: Pat,
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub toks: Vec<Tok>,
    pub prods: Vec<Prod>,
    pub entry: String,
}

pub fn r(s: &str) -> Pat {
    Pat::Ref(s.to_string())
}

impl Pat {
    pub fn size(&self) -> usize {
        match self {
            Pat::Seq(v) | Pat::Alt(v) => 1 + v.iter().map(|p| p.size()).sum::<usize>(),
            Pat::Star(p) | Pat::Plus(p) | Pat::Opt(p) => 1 + p.size(),
            _ => 1,
        }
    }

    /// Tokens of the written pattern, with as few parentheses as the syntax allows.
    pub fn toks(&self, o: &mut Vec<String>) {
        match self {
            Pat::Alt(v) if v.len() > 1 => {
                for (i, p) in v.iter().enumerate() {
                    if i > 0 {
                        o.push("|".into());
                    }
                    p.concat_toks(o, i + 1 == v.len());
                }
            }
            Pat::Eps => o.push("!".into()),
            _ => self.concat_toks(o, true),
        }
    }
    fn concat_toks(&self, o: &mut Vec<String>, _last: bool) {
        match self {
            Pat::Seq(v) if !v.is_empty() => v.iter().for_each(|p| p.unary_toks(o)),
            Pat::Alt(v) if v.len() == 1 => v[0].unary_toks(o),
            _ => self.unary_toks(o),
        }
    }
    fn unary_toks(&self, o: &mut Vec<String>) {
        match self {
            Pat::Star(p) => {
                p.item_toks(o);
                o.push("*".into())
            }
            Pat::Plus(p) => {
                p.item_toks(o);
                o.push("+".into())
            }
            Pat::Opt(p) => {
                p.item_toks(o);
                o.push("?".into())
            }
            _ => self.item_toks(o),
        }
    }
    fn item_toks(&self, o: &mut Vec<String>) {
        match self {
            Pat::Ref(n) => o.push(n.clone()),
            _ => {
                o.push("(".into());
                self.toks(o);
                o.push(")".into());
            }
        }
    }

    /// Nested sequences and alternatives flattened, alternatives in a fixed order.
    pub fn normal(&self) -> Pat {
        match self {
            Pat::Seq(v) => {
                let mut o = Vec::new();
                for p in v {
                    match p.normal() {
                        Pat::Seq(w) => o.extend(w),
                        q => o.push(q),
                    }
                }
                if o.len() == 1 {
                    o.pop().unwrap()
                } else {
                    Pat::Seq(o)
                }
            }
            Pat::Alt(v) => {
                let mut o = Vec::new();
                for p in v {
                    match p.normal() {
                        Pat::Alt(w) => o.extend(w),
                        q => o.push(q),
                    }
                }
                if o.len() == 1 {
                    o.pop().unwrap()
                } else {
                    o.sort();
                    Pat::Alt(o)
                }
            }
            Pat::Star(p) => Pat::Star(Box::new(p.normal())),
            Pat::Plus(p) => Pat::Plus(Box::new(p.normal())),
            Pat::Opt(p) => Pat::Opt(Box::new(p.normal())),
            _ => self.clone(),
        }
    }

    pub fn refs<'a>(&'a self, o: &mut Vec<&'a str>) {
        match self {
            Pat::Seq(v) | Pat::Alt(v) => v.iter().for_each(|p| p.refs(o)),
            Pat::Star(p) | Pat::Plus(p) | Pat::Opt(p) => p.refs(o),
            Pat::Ref(n) => o.push(n),
            Pat::Eps => {}
        }
    }

    pub fn from_lapex(p: &lapex_input::ProductionPattern) -> Pat {
        use lapex_input::ProductionPattern as P;
        match p {
            P::Sequence { elements } => Pat::Seq(elements.iter().map(Pat::from_lapex).collect()),
            P::Alternative { elements } => Pat::Alt(elements.iter().map(Pat::from_lapex).collect()),
            P::OneOrMany { inner } => Pat::Plus(Box::new(Pat::from_lapex(inner))),
            P::ZeroOrMany { inner } => Pat::Star(Box::new(Pat::from_lapex(inner))),
            P::Optional { inner } => Pat::Opt(Box::new(Pat::from_lapex(inner))),
            P::Rule { rule_name } => Pat::Ref(rule_name.to_string()),
            P::Epsilon => Pat::Eps,
        }
    }
}

impl Tok {
    pub fn lit(name: &str, text: &str) -> Tok {
        Tok { name: name.into(), prec: None, pat: TokPat::Lit(text.into()) }
    }
    pub fn pat_text(&self) -> String {
        match &self.pat {
            TokPat::Lit(s) => format!("\"{}\"", s),
            TokPat::Re(r) => format!("/{}/", r.print()),
            TokPat::Raw(s) => format!("/{}/", s),
        }
    }
    /// The meaning as a regular expression (not for `Raw`).
    pub fn rx(&self) -> Rx {
        match &self.pat {
            TokPat::Lit(s) => Rx::lit(s),
            TokPat::Re(r) => r.clone(),
            TokPat::Raw(_) => unreachable!("raw token pattern has no own meaning"),
        }
    }
    pub fn precedence(&self) -> usize {
        match (self.prec, &self.pat) {
            (Some(p), _) => p as usize,
            (None, TokPat::Lit(s)) => 2 * s.chars().count(),
            (None, TokPat::Re(r)) => r.shortest(),
            (None, TokPat::Raw(_)) => unreachable!(),
        }
    }
    fn toks(&self, o: &mut Vec<String>) {
        o.push("token".into());
        o.push(self.name.clone());
        if let Some(p) = self.prec {
            o.push("[".into());
            o.push(p.to_string());
            o.push("]".into());
        }
        o.push("=".into());
        o.push(self.pat_text());
        o.push(";".into());
    }
}

impl Prod {
    fn toks(&self, o: &mut Vec<String>) {
        o.push("prod".into());
        o.push(self.name.clone());
        if let Some(t) = &self.tag {
            o.push("[".into());
            o.push(t.clone());
            o.push("]".into());
        }
        o.push("=".into());
        self.pat.toks(o);
        o.push(";".into());
    }
}

/// One declaration as source tokens.
pub fn decls(s: &Spec) -> Vec<Vec<String>> {
    let mut v = Vec::new();
    for t in &s.toks {
        let mut o = Vec::new();
        t.toks(&mut o);
        v.push(o);
    }
    v.push(vec!["entry".into(), s.entry.clone(), ";".into()]);
    for p in &s.prods {
        let mut o = Vec::new();
        p.toks(&mut o);
        v.push(o);
    }
    v
}

fn wordy(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}

impl Spec {
    pub fn text(&self) -> String {
        let mut o = String::new();
        for d in decls(self) {
            for (i, t) in d.iter().enumerate() {
                if i > 0 && t != ";" {
                    o.push(' ');
                }
                o.push_str(t);
            }
            o.push('\n');
        }
        o
    }

    /// The same declarations, in a random order and layout.
    pub fn random_layout(&self, rng: &mut Rng, shuffle: bool) -> String {
        let mut ds = decls(self);
        if shuffle {
            // productions of one name keep their order: their numbers depend on it
            let n = ds.len();
            for _ in 0..n * 2 {
                let i = rng.below(n - 1);
                let same = ds[i][0] == "prod" && ds[i + 1][0] == "prod" && ds[i][1] == ds[i + 1][1];
                if !same {
                    ds.swap(i, i + 1);
                }
            }
        }
        let mut o = String::new();
        let style = rng.below(4);
        let ws = |o: &mut String, rng: &mut Rng, must: bool| {
            let n = match style {
                0 => must as usize,
                1 => rng.below(2) + must as usize,
                2 => rng.below(4),
                _ => rng.below(7),
            };
            let n = if must { n.max(1) } else { n };
            for _ in 0..n {
                o.push(*rng.pick(&[' ', ' ', '\t', '\n', ' ', '\n']));
            }
        };
        ws(&mut o, rng, false);
        for d in &ds {
            for t in d {
                let must = match (o.chars().last(), t.chars().next()) {
                    (Some(a), Some(b)) => wordy(a) && wordy(b),
                    _ => false,
                };
                ws(&mut o, rng, must);
                o.push_str(t);
            }
            ws(&mut o, rng, false);
        }
        ws(&mut o, rng, false);
        o
    }

    pub fn term_index(&self, name: &str) -> Option<usize> {
        self.toks.iter().position(|t| t.name == name)
    }

    pub fn nt_names(&self) -> Vec<String> {
        let mut v: Vec<String> = Vec::new();
        for p in &self.prods {
            if !v.contains(&p.name) {
                v.push(p.name.clone());
            }
        }
        v
    }
}

pub type Lang = BTreeSet<Vec<u8>>;

/// The token sequences of up to `n` tokens that each named production describes, computed
/// directly on the written patterns (no grammar rewriting involved). `None`: too many.
pub fn languages(s: &Spec, n: usize, cap: usize) -> Option<BTreeMap<String, Lang>> {
    let names = s.nt_names();
    let mut env: BTreeMap<String, Lang> = names.iter().map(|n| (n.clone(), Lang::new())).collect();
    loop {
        let mut changed = false;
        for p in &s.prods {
            let l = eval(&p.pat, s, &env, n, cap)?;
            let e = env.get_mut(&p.name).unwrap();
            let before = e.len();
            e.extend(l);
            if e.len() > cap {
                return None;
            }
            changed |= e.len() != before;
        }
        if !changed {
            return Some(env);
        }
    }
}

pub fn concat(a: &Lang, b: &Lang, n: usize, cap: usize) -> Option<Lang> {
    let mut o = Lang::new();
    for x in a {
        for y in b {
            if x.len() + y.len() <= n {
                let mut z = x.clone();
                z.extend_from_slice(y);
                o.insert(z);
                if o.len() > cap {
                    return None;
                }
            }
        }
    }
    Some(o)
}

fn eval(p: &Pat, s: &Spec, env: &BTreeMap<String, Lang>, n: usize, cap: usize) -> Option<Lang> {
    let eps = || Lang::from([vec![]]);
    Some(match p {
        Pat::Eps => eps(),
        Pat::Ref(name) => match s.term_index(name) {
            Some(i) if n > 0 => Lang::from([vec![i as u8]]),
            Some(_) => Lang::new(),
            None => env.get(name).cloned().unwrap_or_default(),
        },
        Pat::Seq(v) => {
            let mut o = eps();
            for q in v {
                o = concat(&o, &eval(q, s, env, n, cap)?, n, cap)?;
                if o.is_empty() {
                    break;
                }
            }
            o
        }
        Pat::Alt(v) => {
            let mut o = Lang::new();
            for q in v {
                o.extend(eval(q, s, env, n, cap)?);
            }
            o
        }
        Pat::Opt(q) => {
            let mut o = eval(q, s, env, n, cap)?;
            o.insert(vec![]);
            o
        }
        Pat::Star(q) | Pat::Plus(q) => {
            let base = eval(q, s, env, n, cap)?;
            let mut o = if matches!(p, Pat::Star(_)) { eps() } else { base.clone() };
            loop {
                let more = concat(&o, &base, n, cap)?;
                let before = o.len();
                o.extend(more);
                if o.len() == before {
                    break;
                }
            }
            o
        }
    })
}
