//! Plain context-free grammars of our own: rewriting, analyses, Earley recognition, LL/LR classes.
use crate::model::*;
use crate::util::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum S {
    T(u16),
    N(u16),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Rule {
    pub lhs: u16,
    pub rhs: Vec<S>,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub nt: usize,
    pub nn: usize,
    pub rules: Vec<Rule>,
    pub start: u16,
    pub by_lhs: Vec<Vec<usize>>,
    pub nullable: Vec<bool>,
    pub min_len: Vec<usize>,
    /// names of the named non-terminals (index = number)
    pub names: Vec<String>,
}

const INF: usize = usize::MAX / 4;

impl Cfg {
    pub fn new(nt: usize, nn: usize, rules: Vec<Rule>, start: u16, names: Vec<String>) -> Cfg {
        let mut by_lhs = vec![Vec::new(); nn];
        for (i, r) in rules.iter().enumerate() {
            by_lhs[r.lhs as usize].push(i);
        }
        let mut c = Cfg { nt, nn, rules, start, by_lhs, nullable: vec![false; nn], min_len: vec![INF; nn], names };
        loop {
            let mut ch = false;
            for r in &c.rules {
                let l = c.seq_min(&r.rhs);
                if l < c.min_len[r.lhs as usize] {
                    c.min_len[r.lhs as usize] = l;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        for i in 0..nn {
            c.nullable[i] = c.min_len[i] == 0;
        }
        c
    }

    fn seq_min(&self, s: &[S]) -> usize {
        s.iter().map(|x| match x {
            S::T(_) => 1,
            S::N(n) => self.min_len[*n as usize],
        }).fold(0usize, |a, b| (a + b).min(INF))
    }

    /// Our own rewriting of the written productions to plain rules.
    pub fn from_spec(s: &Spec) -> Option<Cfg> {
        let names = s.nt_names();
        let mut b = Builder { spec: s, names: names.clone(), nn: names.len(), rules: Vec::new() };
        for p in &s.prods {
            let lhs = names.iter().position(|n| *n == p.name).unwrap() as u16;
            let rhs = b.tr(&p.pat)?;
            b.rules.push(Rule { lhs, rhs });
        }
        let start = names.iter().position(|n| *n == s.entry)? as u16;
        Some(Cfg::new(s.toks.len(), b.nn, b.rules, start, names))
    }

    pub fn is_null(&self, s: S) -> bool {
        matches!(s, S::N(n) if self.nullable[n as usize])
    }

    /// Every non-terminal derives a token sequence and is reachable from the entry; no two rules alike.
    pub fn reduced(&self) -> bool {
        if self.min_len.iter().any(|l| *l >= INF) {
            return false;
        }
        let mut seen = vec![false; self.nn];
        let mut todo = vec![self.start];
        seen[self.start as usize] = true;
        while let Some(n) = todo.pop() {
            for r in &self.by_lhs[n as usize] {
                for s in &self.rules[*r].rhs {
                    if let S::N(m) = s {
                        if !seen[*m as usize] {
                            seen[*m as usize] = true;
                            todo.push(*m);
                        }
                    }
                }
            }
        }
        let mut set = HashSet::new();
        seen.iter().all(|x| *x) && self.rules.iter().all(|r| set.insert((r.lhs, r.rhs.clone())))
    }

    /// A cyclic derivation A =>+ A or a hidden left recursion A =>+ N A x with N deriving nothing.
    pub fn cyclic_or_hidden(&self) -> bool {
        // edges A -> B with flags: (hidden: something nullable stands before B, cyclic: rest nullable too)
        let mut edges: Vec<Vec<(u16, bool, bool)>> = vec![Vec::new(); self.nn];
        for r in &self.rules {
            for (i, s) in r.rhs.iter().enumerate() {
                if let S::N(b) = s {
                    if r.rhs[..i].iter().all(|x| self.is_null(*x)) {
                        let rest = r.rhs[i + 1..].iter().all(|x| self.is_null(*x));
                        edges[r.lhs as usize].push((*b, i > 0, rest));
                    }
                }
            }
        }
        for a in 0..self.nn {
            // states: (node, hidden so far, still cyclic)
            let mut seen = HashSet::new();
            let mut todo: Vec<(u16, bool, bool)> = vec![(a as u16, false, true)];
            while let Some((n, h, c)) = todo.pop() {
                for (b, eh, ec) in &edges[n as usize] {
                    let st = (*b, h || *eh, c && *ec);
                    if st.0 == a as u16 && (st.1 || st.2) {
                        return true;
                    }
                    if seen.insert(st) {
                        todo.push(st);
                    }
                }
            }
        }
        false
    }

    pub fn first_sets(&self) -> Vec<BTreeSet<u16>> {
        let mut f = vec![BTreeSet::new(); self.nn];
        loop {
            let mut ch = false;
            for r in &self.rules {
                let add = self.first_seq(&r.rhs, &f).0;
                let e = &mut f[r.lhs as usize];
                let b = e.len();
                e.extend(add);
                ch |= b != e.len();
            }
            if !ch {
                return f;
            }
        }
    }

    /// first tokens of a sequence, and whether it can derive nothing
    pub fn first_seq(&self, s: &[S], f: &[BTreeSet<u16>]) -> (BTreeSet<u16>, bool) {
        let mut o = BTreeSet::new();
        for x in s {
            match x {
                S::T(t) => {
                    o.insert(*t);
                    return (o, false);
                }
                S::N(n) => {
                    o.extend(f[*n as usize].iter().copied());
                    if !self.nullable[*n as usize] {
                        return (o, false);
                    }
                }
            }
        }
        (o, true)
    }

    pub const END: u16 = u16::MAX;

    pub fn follow_sets(&self, f: &[BTreeSet<u16>]) -> Vec<BTreeSet<u16>> {
        let mut fo = vec![BTreeSet::new(); self.nn];
        fo[self.start as usize].insert(Self::END);
        loop {
            let mut ch = false;
            for r in &self.rules {
                for (i, s) in r.rhs.iter().enumerate() {
                    if let S::N(n) = s {
                        let (mut add, null) = self.first_seq(&r.rhs[i + 1..], f);
                        if null {
                            add.extend(fo[r.lhs as usize].iter().copied());
                        }
                        let e = &mut fo[*n as usize];
                        let b = e.len();
                        e.extend(add);
                        ch |= b != e.len();
                    }
                }
            }
            if !ch {
                return fo;
            }
        }
    }

    pub fn predict_sets(&self) -> Vec<BTreeSet<u16>> {
        let f = self.first_sets();
        let fo = self.follow_sets(&f);
        self.rules
            .iter()
            .map(|r| {
                let (mut p, null) = self.first_seq(&r.rhs, &f);
                if null {
                    p.extend(fo[r.lhs as usize].iter().copied());
                }
                p
            })
            .collect()
    }

    pub fn is_ll1(&self) -> bool {
        let p = self.predict_sets();
        for rs in &self.by_lhs {
            let mut seen = BTreeSet::new();
            for r in rs {
                for t in &p[*r] {
                    if !seen.insert(*t) {
                        return false;
                    }
                }
            }
        }
        true
    }

    /// A random sentence of roughly the given size.
    pub fn sentence(&self, rng: &mut Rng, budget: usize) -> Vec<u16> {
        self.sentence_of(self.start, rng, budget)
    }

    /// A sentence of about `budget` tokens if the language has any (recursive rules are preferred).
    pub fn long_sentence(&self, rng: &mut Rng, budget: usize) -> Option<Vec<u16>> {
        let mut reach = vec![vec![false; self.nn]; self.nn];
        loop {
            let mut ch = false;
            for r in &self.rules {
                for x in &r.rhs {
                    if let S::N(n) = x {
                        for k in 0..self.nn {
                            let hit = k == *n as usize || reach[*n as usize][k];
                            if hit && !reach[r.lhs as usize][k] {
                                reach[r.lhs as usize][k] = true;
                                ch = true;
                            }
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let growing: Vec<bool> = self
            .rules
            .iter()
            .map(|r| r.rhs.len() > 1 && r.rhs.iter().any(|x| matches!(x, S::N(n) if *n == r.lhs || reach[*n as usize][r.lhs as usize])))
            .collect();
        let len = |x: &S| match x {
            S::T(_) => 1,
            S::N(n) => self.min_len[*n as usize],
        };
        let mut out = Vec::new();
        let mut stack = vec![S::N(self.start)];
        let mut pending = len(&stack[0]);
        let mut steps = 0usize;
        while let Some(s) = stack.pop() {
            pending -= len(&s);
            match s {
                S::T(t) => out.push(t),
                S::N(n) => {
                    steps += 1;
                    let rs = &self.by_lhs[n as usize];
                    if steps > 10 * budget {
                        return None;
                    }
                    let r = if out.len() + pending >= budget || steps > 6 * budget {
                        *rs.iter().min_by_key(|r| (self.seq_min(&self.rules[**r].rhs), self.rules[**r].rhs.iter().filter(|s| matches!(s, S::N(_))).count())).unwrap()
                    } else {
                        let g: Vec<usize> = rs.iter().copied().filter(|r| growing[*r]).collect();
                        let leads: Vec<usize> = rs
                            .iter()
                            .copied()
                            .filter(|r| self.rules[*r].rhs.iter().any(|x| matches!(x, S::N(n) if (0..self.nn).any(|k| reach[*n as usize][k] && reach[k][k]))))
                            .collect();
                        if !g.is_empty() && rng.pct(90) {
                            *rng.pick(&g)
                        } else if !leads.is_empty() && rng.pct(80) {
                            *rng.pick(&leads)
                        } else {
                            *rng.pick(rs)
                        }
                    };
                    for x in self.rules[r].rhs.iter().rev() {
                        pending += len(x);
                        stack.push(*x);
                    }
                }
            }
        }
        (out.len() > budget / 2 && out.len() < 3 * budget).then_some(out)
    }

    pub fn sentence_of(&self, from: u16, rng: &mut Rng, budget: usize) -> Vec<u16> {
        let mut out = Vec::new();
        let mut stack = vec![S::N(from)];
        let mut steps = 0;
        while let Some(s) = stack.pop() {
            match s {
                S::T(t) => out.push(t),
                S::N(n) => {
                    steps += 1;
                    let rs = &self.by_lhs[n as usize];
                    let pending: usize = self.seq_min(&stack);
                    let tight = out.len() + pending >= budget || steps > 40 * budget + 200;
                    let r = if tight {
                        let best = rs.iter().map(|r| self.seq_min(&self.rules[*r].rhs)).min().unwrap();
                        let mut c: Vec<usize> = rs
                            .iter()
                            .copied()
                            .filter(|r| self.seq_min(&self.rules[*r].rhs) == best)
                            .collect();
                        // on the way out, take rules that do not loop
                        c.sort_by_key(|r| self.rules[*r].rhs.iter().filter(|s| matches!(s, S::N(_))).count());
                        if steps > 60 * budget + 400 {
                            c[0]
                        } else {
                            *rng.pick(&c)
                        }
                    } else {
                        *rng.pick(rs)
                    };
                    if steps > 200 * budget + 4000 {
                        return out;
                    }
                    for x in self.rules[r].rhs.iter().rev() {
                        stack.push(*x);
                    }
                }
            }
        }
        out
    }

    /// Sets of token sequences up to length n per non-terminal, from the plain rules.
    pub fn languages(&self, n: usize, cap: usize) -> Option<Vec<Lang>> {
        let mut env = vec![Lang::new(); self.nn];
        loop {
            let mut ch = false;
            for r in &self.rules {
                let mut o = Lang::from([vec![]]);
                for s in &r.rhs {
                    let l = match s {
                        S::T(t) => {
                            if n > 0 {
                                Lang::from([vec![*t as u8]])
                            } else {
                                Lang::new()
                            }
                        }
                        S::N(m) => env[*m as usize].clone(),
                    };
                    o = concat(&o, &l, n, cap)?;
                    if o.is_empty() {
                        break;
                    }
                }
                let e = &mut env[r.lhs as usize];
                let b = e.len();
                e.extend(o);
                if e.len() > cap {
                    return None;
                }
                ch |= b != e.len();
            }
            if !ch {
                return Some(env);
            }
        }
    }
}

struct Builder<'a> {
    spec: &'a Spec,
    names: Vec<String>,
    nn: usize,
    rules: Vec<Rule>,
}

impl<'a> Builder<'a> {
    fn fresh(&mut self) -> u16 {
        self.nn += 1;
        (self.nn - 1) as u16
    }
    fn tr(&mut self, p: &Pat) -> Option<Vec<S>> {
        Some(match p {
            Pat::Eps => vec![],
            Pat::Ref(n) => {
                if let Some(t) = self.spec.term_index(n) {
                    vec![S::T(t as u16)]
                } else {
                    vec![S::N(self.names.iter().position(|x| x == n)? as u16)]
                }
            }
            Pat::Seq(v) => {
                let mut o = Vec::new();
                for q in v {
                    o.extend(self.tr(q)?);
                }
                o
            }
            Pat::Alt(v) => {
                let a = self.fresh();
                for q in v {
                    let rhs = self.tr(q)?;
                    self.rules.push(Rule { lhs: a, rhs });
                }
                vec![S::N(a)]
            }
            Pat::Opt(q) => {
                let a = self.fresh();
                let rhs = self.tr(q)?;
                self.rules.push(Rule { lhs: a, rhs });
                self.rules.push(Rule { lhs: a, rhs: vec![] });
                vec![S::N(a)]
            }
            Pat::Plus(q) => {
                let a = self.fresh();
                let rhs = self.tr(q)?;
                let mut more = rhs.clone();
                more.push(S::N(a));
                self.rules.push(Rule { lhs: a, rhs });
                self.rules.push(Rule { lhs: a, rhs: more });
                vec![S::N(a)]
            }
            Pat::Star(q) => {
                let a = self.fresh();
                let mut more = self.tr(q)?;
                more.push(S::N(a));
                self.rules.push(Rule { lhs: a, rhs: vec![] });
                self.rules.push(Rule { lhs: a, rhs: more });
                vec![S::N(a)]
            }
        })
    }
}

// ---------------------------------------------------------------- Earley

/// Incremental Earley recogniser: tokens can be pushed and popped.
pub struct Earley<'g> {
    g: &'g Cfg,
    /// per position: items (rule, dot, origin), the start item being rule == usize::MAX
    sets: Vec<Vec<(u32, u16, u32)>>,
    index: Vec<HashSet<(u32, u16, u32)>>,
}

const TOP: u32 = u32::MAX;

impl<'g> Earley<'g> {
    pub fn new(g: &'g Cfg) -> Self {
        let mut e = Earley { g, sets: vec![vec![(TOP, 0, 0)]], index: vec![HashSet::from([(TOP, 0, 0)])] };
        e.complete(0);
        e
    }
    fn after(&self, it: (u32, u16, u32)) -> Option<S> {
        if it.0 == TOP {
            return if it.1 == 0 { Some(S::N(self.g.start)) } else { None };
        }
        self.g.rules[it.0 as usize].rhs.get(it.1 as usize).copied()
    }
    fn add(&mut self, k: usize, it: (u32, u16, u32)) {
        if self.index[k].insert(it) {
            self.sets[k].push(it);
        }
    }
    fn complete(&mut self, k: usize) {
        let g = self.g;
        let mut i = 0;
        while i < self.sets[k].len() {
            let it = self.sets[k][i];
            i += 1;
            match self.after(it) {
                Some(S::N(n)) => {
                    for r in &g.by_lhs[n as usize] {
                        self.add(k, (*r as u32, 0, k as u32));
                    }
                    if g.nullable[n as usize] {
                        self.add(k, (it.0, it.1 + 1, it.2));
                    }
                }
                Some(S::T(_)) => {}
                None => {
                    if it.0 == TOP {
                        continue;
                    }
                    let lhs = g.rules[it.0 as usize].lhs;
                    let o = it.2 as usize;
                    let mut j = 0;
                    while j < self.sets[o].len() {
                        let p = self.sets[o][j];
                        j += 1;
                        if self.after(p) == Some(S::N(lhs)) {
                            self.add(k, (p.0, p.1 + 1, p.2));
                        }
                    }
                }
            }
        }
    }
    /// Push a token; false (and nothing pushed) if no sentence continues this way.
    pub fn push(&mut self, t: u16) -> bool {
        self.push_sym(S::T(t))
    }
    /// Push a token or a whole non-terminal.
    pub fn push_sym(&mut self, s: S) -> bool {
        let k = self.sets.len();
        let moved: Vec<_> = self.sets[k - 1]
            .iter()
            .copied()
            .filter(|it| self.after(*it) == Some(s))
            .map(|it| (it.0, it.1 + 1, it.2))
            .collect();
        if moved.is_empty() {
            return false;
        }
        self.sets.push(Vec::new());
        self.index.push(HashSet::new());
        for m in moved {
            self.add(k, m);
        }
        self.complete(k);
        true
    }
    pub fn pop(&mut self) {
        self.sets.pop();
        self.index.pop();
    }
    pub fn accepting(&self) -> bool {
        self.index.last().unwrap().contains(&(TOP, 1, 0))
    }
    pub fn next_tokens(&self) -> BTreeSet<u16> {
        self.sets
            .last()
            .unwrap()
            .iter()
            .filter_map(|it| match self.after(*it) {
                Some(S::T(t)) => Some(t),
                _ => None,
            })
            .collect()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    Sentence,
    /// index of the first token that cannot continue (the length: the end cannot)
    Bad(usize),
}

/// For reduced grammars.
pub fn judge(g: &Cfg, w: &[u16]) -> Verdict {
    let mut e = Earley::new(g);
    for (i, t) in w.iter().enumerate() {
        if !e.push(*t) {
            return Verdict::Bad(i);
        }
    }
    if e.accepting() {
        Verdict::Sentence
    } else {
        Verdict::Bad(w.len())
    }
}

// ---------------------------------------------------------------- LR classes

type Item0 = (u32, u16);
type Item1 = (u32, u16, u16);

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Conf {
    /// rule to reduce (None: accept), token that could be shifted
    ShiftReduce(Option<usize>, u16),
    /// rules that could be reduced (usize::MAX: accept)
    ReduceReduce(Vec<usize>),
}

pub struct Automaton {
    pub states: usize,
    pub conflicts: Vec<Conf>,
    /// per state: set of (complete rule, lookahead)
    pub reduces: Vec<BTreeSet<(usize, u16)>>,
    pub shifts: Vec<BTreeSet<u16>>,
    pub moves: Vec<BTreeMap<S, usize>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Alg {
    Lr0,
    Lalr,
    Lr1,
}

impl Alg {
    pub fn name(self) -> &'static str {
        match self {
            Alg::Lr0 => "lr0",
            Alg::Lalr => "lalr",
            Alg::Lr1 => "lr1",
        }
    }
}

impl Cfg {
    fn after(&self, rule: u32, dot: u16) -> Option<S> {
        if rule == TOP {
            return if dot == 0 { Some(S::N(self.start)) } else { None };
        }
        self.rules[rule as usize].rhs.get(dot as usize).copied()
    }

    fn closure0(&self, kernel: &BTreeSet<Item0>) -> BTreeSet<Item0> {
        let mut set = kernel.clone();
        let mut todo: Vec<Item0> = kernel.iter().copied().collect();
        while let Some((r, d)) = todo.pop() {
            if let Some(S::N(n)) = self.after(r, d) {
                for x in &self.by_lhs[n as usize] {
                    if set.insert((*x as u32, 0)) {
                        todo.push((*x as u32, 0));
                    }
                }
            }
        }
        set
    }

    fn closure1(&self, kernel: &BTreeSet<Item1>, f: &[BTreeSet<u16>]) -> BTreeSet<Item1> {
        let mut set = kernel.clone();
        let mut todo: Vec<Item1> = kernel.iter().copied().collect();
        while let Some((r, d, la)) = todo.pop() {
            if let Some(S::N(n)) = self.after(r, d) {
                let rest: &[S] = if r == TOP { &[] } else { &self.rules[r as usize].rhs[d as usize + 1..] };
                let (mut las, null) = self.first_seq(rest, f);
                if null {
                    las.insert(la);
                }
                for x in &self.by_lhs[n as usize] {
                    for l in &las {
                        let it = (*x as u32, 0, *l);
                        if set.insert(it) {
                            todo.push(it);
                        }
                    }
                }
            }
        }
        set
    }

    /// The textbook automaton of the class with its conflicts; None if it has too many states.
    pub fn automaton(&self, alg: Alg, cap: usize) -> Option<Automaton> {
        match alg {
            Alg::Lr0 => {
                let mut ids: HashMap<BTreeSet<Item0>, usize> = HashMap::new();
                let mut list = Vec::new();
                let start = BTreeSet::from([(TOP, 0u16)]);
                ids.insert(start.clone(), 0);
                list.push(start);
                let mut red = Vec::new();
                let mut shi = Vec::new();
                let mut mov: Vec<BTreeMap<S, usize>> = Vec::new();
                let mut i = 0;
                while i < list.len() {
                    let set = self.closure0(&list[i]);
                    let mut moves: BTreeMap<S, BTreeSet<Item0>> = BTreeMap::new();
                    let mut rs = BTreeSet::new();
                    let mut sh = BTreeSet::new();
                    for (r, d) in set {
                        match self.after(r, d) {
                            Some(s) => {
                                if let S::T(t) = s {
                                    sh.insert(t);
                                }
                                moves.entry(s).or_default().insert((r, d + 1));
                            }
                            None if r == TOP => {
                                rs.insert((usize::MAX, Self::END));
                            }
                            None => {
                                for t in 0..self.nt as u16 {
                                    rs.insert((r as usize, t));
                                }
                                rs.insert((r as usize, Self::END));
                            }
                        }
                    }
                    let mut mv = BTreeMap::new();
                    for (x, k) in moves {
                        let n = list.len();
                        let to = *ids.entry(k.clone()).or_insert_with(|| {
                            list.push(k);
                            n
                        });
                        mv.insert(x, to);
                    }
                    mov.push(mv);
                    red.push(rs);
                    shi.push(sh);
                    if list.len() > cap {
                        return None;
                    }
                    i += 1;
                }
                Some(finish_automaton(red, shi, mov))
            }
            Alg::Lr1 | Alg::Lalr => {
                let f = self.first_sets();
                let mut ids: HashMap<BTreeSet<Item1>, usize> = HashMap::new();
                let mut list = Vec::new();
                let start = BTreeSet::from([(TOP, 0u16, Self::END)]);
                ids.insert(start.clone(), 0);
                list.push(start);
                let mut cores: Vec<BTreeSet<Item0>> = Vec::new();
                let mut red = Vec::new();
                let mut shi = Vec::new();
                let mut mov: Vec<BTreeMap<S, usize>> = Vec::new();
                let mut i = 0;
                while i < list.len() {
                    cores.push(list[i].iter().map(|x| (x.0, x.1)).collect());
                    let set = self.closure1(&list[i], &f);
                    let mut moves: BTreeMap<S, BTreeSet<Item1>> = BTreeMap::new();
                    let mut rs = BTreeSet::new();
                    let mut sh = BTreeSet::new();
                    for (r, d, la) in set {
                        match self.after(r, d) {
                            Some(s) => {
                                if let S::T(t) = s {
                                    sh.insert(t);
                                }
                                moves.entry(s).or_default().insert((r, d + 1, la));
                            }
                            None => {
                                rs.insert((if r == TOP { usize::MAX } else { r as usize }, la));
                            }
                        }
                    }
                    let mut mv = BTreeMap::new();
                    for (x, k) in moves {
                        let n = list.len();
                        let to = *ids.entry(k.clone()).or_insert_with(|| {
                            list.push(k);
                            n
                        });
                        mv.insert(x, to);
                    }
                    mov.push(mv);
                    red.push(rs);
                    shi.push(sh);
                    if list.len() > cap {
                        return None;
                    }
                    i += 1;
                }
                if alg == Alg::Lalr {
                    let mut group: HashMap<BTreeSet<Item0>, usize> = HashMap::new();
                    let mut of = Vec::new();
                    for c in cores {
                        let n = group.len();
                        of.push(*group.entry(c).or_insert(n));
                    }
                    let n = group.len();
                    let mut r2 = vec![BTreeSet::new(); n];
                    let mut s2 = vec![BTreeSet::new(); n];
                    let mut m2 = vec![BTreeMap::new(); n];
                    for i in 0..of.len() {
                        r2[of[i]].extend(red[i].iter().copied());
                        s2[of[i]].extend(shi[i].iter().copied());
                        m2[of[i]].extend(mov[i].iter().map(|(k, v)| (*k, of[*v])));
                    }
                    return Some(finish_automaton(r2, s2, m2));
                }
                Some(finish_automaton(red, shi, mov))
            }
        }
    }

    pub fn in_class(&self, alg: Alg, cap: usize) -> Option<bool> {
        Some(self.automaton(alg, cap)?.conflicts.is_empty())
    }
}

/// The LALR automaton as a machine, conflicts kept.
pub struct Machine {
    pub step: Vec<BTreeMap<S, usize>>,
    /// rules to reduce per lookahead; usize::MAX accepts
    pub reduce: Vec<BTreeMap<u16, Vec<usize>>>,
}

impl Cfg {
    pub fn lalr_machine(&self, cap: usize) -> Option<Machine> {
        let f = self.first_sets();
        let mut ids: HashMap<BTreeSet<Item1>, usize> = HashMap::new();
        let mut list = vec![BTreeSet::from([(TOP, 0u16, Self::END)])];
        ids.insert(list[0].clone(), 0);
        let mut core_ids: HashMap<BTreeSet<Item0>, usize> = HashMap::new();
        let mut m = Machine { step: vec![], reduce: vec![] };
        let mut i = 0;
        while i < list.len() {
            let core = |k: &BTreeSet<Item1>| -> BTreeSet<Item0> { k.iter().map(|x| (x.0, x.1)).collect() };
            let mut number = |m: &mut Machine, c: BTreeSet<Item0>| {
                let n = core_ids.len();
                let id = *core_ids.entry(c).or_insert(n);
                if id == m.step.len() {
                    m.step.push(BTreeMap::new());
                    m.reduce.push(BTreeMap::new());
                }
                id
            };
            let me = number(&mut m, core(&list[i]));
            let set = self.closure1(&list[i], &f);
            let mut moves: BTreeMap<S, BTreeSet<Item1>> = BTreeMap::new();
            for (r, d, la) in set {
                match self.after(r, d) {
                    Some(s) => {
                        moves.entry(s).or_default().insert((r, d + 1, la));
                    }
                    None => {
                        let v = m.reduce[me].entry(la).or_default();
                        let r = if r == TOP { usize::MAX } else { r as usize };
                        if !v.contains(&r) {
                            v.push(r);
                        }
                    }
                }
            }
            for (s, k) in moves {
                let id = number(&mut m, core(&k));
                m.step[me].insert(s, id);
                let n = list.len();
                ids.entry(k.clone()).or_insert_with(|| {
                    list.push(k);
                    n
                });
            }
            if list.len() > cap {
                return None;
            }
            i += 1;
        }
        Some(m)
    }

    /// One deterministic reading with this machine: verdict, tokens that can follow the longest
    /// viable prefix (-1: the end), greatest height of the stack. None where it has a choice.
    pub fn straight(&self, m: &Machine, w: &[u16]) -> Option<(Verdict, BTreeSet<i64>, usize)> {
        // reductions in front of `t`; Some(true): it can be shifted (the end: accepted)
        fn settle(g: &Cfg, m: &Machine, st: &mut Vec<usize>, t: u16) -> Option<bool> {
            loop {
                let top = *st.last().unwrap();
                let shift = t != Cfg::END && m.step[top].contains_key(&S::T(t));
                match m.reduce[top].get(&t).map(|v| v.as_slice()).unwrap_or(&[]) {
                    [] => return Some(shift),
                    [_] if shift => return None,
                    [r] if *r == usize::MAX => return Some(true),
                    [r] => {
                        let rule = &g.rules[*r];
                        st.truncate(st.len() - rule.rhs.len());
                        match m.step[*st.last().unwrap()].get(&S::N(rule.lhs)) {
                            Some(n) => st.push(*n),
                            None => return Some(false),
                        }
                    }
                    _ => return None,
                }
            }
        }
        let run = |upto: usize| -> Option<(Vec<usize>, usize, Option<usize>)> {
            let mut st = vec![0usize];
            let mut high = 1;
            for (i, t) in w[..upto].iter().enumerate() {
                if !settle(self, m, &mut st, *t)? {
                    return Some((st, high, Some(i)));
                }
                let n = m.step[*st.last().unwrap()][&S::T(*t)];
                st.push(n);
                high = high.max(st.len());
            }
            Some((st, high, None))
        };
        let (mut st, high, bad) = run(w.len())?;
        if let Some(i) = bad {
            // without the reductions made for the rejected token
            st = run(i)?.0;
        }
        let mut next = BTreeSet::new();
        for t in (0..self.nt as u16).chain([Self::END]) {
            if settle(self, m, &mut st.clone(), t)? {
                next.insert(if t == Self::END { -1 } else { t as i64 });
            }
        }
        let verdict = match bad {
            Some(i) => Verdict::Bad(i),
            None if next.contains(&-1) => Verdict::Sentence,
            None => Verdict::Bad(w.len()),
        };
        Some((verdict, next, high))
    }

    /// How many stacks a parser that follows every alternative needs on this input (up to `cap`).
    pub fn width(&self, m: &Machine, w: &[u16], cap: usize) -> usize {
        let mut stacks: Vec<Vec<usize>> = vec![vec![0]];
        let mut most = 1;
        for i in 0..=w.len() {
            let t = w.get(i).copied().unwrap_or(Self::END);
            let mut next = Vec::new();
            let mut todo = stacks;
            let mut work = 0;
            while let Some(s) = todo.pop() {
                work += 1;
                if work > cap || next.len() > cap {
                    return cap + 1;
                }
                let top = *s.last().unwrap();
                if t != Self::END {
                    if let Some(n) = m.step[top].get(&S::T(t)) {
                        let mut x = s.clone();
                        x.push(*n);
                        next.push(x);
                    }
                }
                if let Some(rs) = m.reduce[top].get(&t) {
                    for r in rs {
                        if *r == usize::MAX {
                            continue;
                        }
                        let rule = &self.rules[*r];
                        let mut x = s.clone();
                        x.truncate(s.len() - rule.rhs.len());
                        if let Some(n) = m.step[*x.last().unwrap()].get(&S::N(rule.lhs)) {
                            x.push(*n);
                            todo.push(x);
                        }
                    }
                }
            }
            most = most.max(work).max(next.len());
            if next.is_empty() {
                break;
            }
            stacks = next;
        }
        most
    }
}

fn finish_automaton(red: Vec<BTreeSet<(usize, u16)>>, shi: Vec<BTreeSet<u16>>, moves: Vec<BTreeMap<S, usize>>) -> Automaton {
    let mut conf = BTreeSet::new();
    for (rs, sh) in red.iter().zip(&shi) {
        let mut by_la: BTreeMap<u16, Vec<usize>> = BTreeMap::new();
        for (r, la) in rs {
            by_la.entry(*la).or_default().push(*r);
        }
        for (la, v) in by_la {
            if v.len() > 1 {
                conf.insert(Conf::ReduceReduce(v.clone()));
            }
            if sh.contains(&la) {
                for r in v {
                    conf.insert(Conf::ShiftReduce(if r == usize::MAX { None } else { Some(r) }, la));
                }
            }
        }
    }
    Automaton { states: red.len(), conflicts: conf.into_iter().collect(), reduces: red, shifts: shi, moves }
}
