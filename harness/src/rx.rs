//! Regular expressions of our own: syntax tree, printing, derivatives, deterministic automata.
use crate::util::Rng;
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

/// Sorted, disjoint, non-adjacent inclusive ranges.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Set(pub Vec<(u32, u32)>);

pub const MAXC: u32 = 0x10FFFF;

impl Set {
    pub fn new(mut v: Vec<(u32, u32)>) -> Set {
        v.sort();
        let mut o: Vec<(u32, u32)> = Vec::new();
        for (a, b) in v {
            if let Some(l) = o.last_mut() {
                if a <= l.1.saturating_add(1) {
                    l.1 = l.1.max(b);
                    continue;
                }
            }
            o.push((a, b));
        }
        Set(o)
    }
    pub fn one(c: char) -> Set {
        Set(vec![(c as u32, c as u32)])
    }
    pub fn negate(&self) -> Set {
        let mut o = Vec::new();
        let mut next = 0u32;
        for (a, b) in &self.0 {
            if *a > next {
                o.push((next, a - 1));
            }
            next = b + 1;
        }
        if next <= MAXC {
            o.push((next, MAXC));
        }
        Set(o)
    }
    pub fn has(&self, c: u32) -> bool {
        self.0.iter().any(|(a, b)| *a <= c && c <= *b)
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    /// A random scalar value of the set (never NUL unless it is the only one).
    pub fn sample(&self, rng: &mut Rng) -> Option<char> {
        for _ in 0..20 {
            let (a, b) = *rng.pick(&self.0);
            let c = if rng.pct(40) {
                if rng.pct(50) {
                    a
                } else {
                    b
                }
            } else {
                a + (rng.next() % (b as u64 - a as u64 + 1)) as u32
            };
            if c == 0 {
                continue;
            }
            if let Some(ch) = char::from_u32(c) {
                return Some(ch);
            }
        }
        self.0.iter().flat_map(|(a, b)| (*a..=*b).take(3)).filter(|c| *c != 0).find_map(char::from_u32)
    }
}

#[derive(Clone, Debug)]
pub enum Rx {
    /// A set of characters and the text that denotes it
    Set(Set, String),
    Cat(Vec<Rx>),
    Alt(Vec<Rx>),
    Rep(Box<Rx>, u32, Option<u32>),
}

impl Rx {
    pub fn ch(c: char) -> Rx {
        Rx::Set(Set::one(c), esc(c))
    }
    pub fn lit(s: &str) -> Rx {
        Rx::Cat(s.chars().map(Rx::ch).collect())
    }
    pub fn nullable(&self) -> bool {
        match self {
            Rx::Set(..) => false,
            Rx::Cat(v) => v.iter().all(|r| r.nullable()),
            Rx::Alt(v) => v.iter().any(|r| r.nullable()),
            Rx::Rep(r, min, _) => *min == 0 || r.nullable(),
        }
    }
    /// length of the shortest text
    pub fn shortest(&self) -> usize {
        match self {
            Rx::Set(..) => 1,
            Rx::Cat(v) => v.iter().map(|r| r.shortest()).sum(),
            Rx::Alt(v) => v.iter().map(|r| r.shortest()).min().unwrap_or(0),
            Rx::Rep(r, min, _) => *min as usize * r.shortest(),
        }
    }
    fn print_atom(&self, o: &mut String) {
        match self {
            Rx::Set(..) => self.print_in(o),
            Rx::Cat(v) if v.len() == 1 && matches!(v[0], Rx::Set(..)) => v[0].print_in(o),
            _ => {
                o.push('(');
                self.print_in(o);
                o.push(')');
            }
        }
    }
    fn print_in(&self, o: &mut String) {
        match self {
            Rx::Set(_, s) => o.push_str(s),
            Rx::Cat(v) => {
                for r in v {
                    match r {
                        Rx::Alt(a) if a.len() > 1 => r.print_atom(o),
                        _ => r.print_in(o),
                    }
                }
            }
            Rx::Alt(v) => {
                for (i, r) in v.iter().enumerate() {
                    if i > 0 {
                        o.push('|');
                    }
                    r.print_in(o);
                }
            }
            Rx::Rep(r, min, max) => {
                r.print_atom(o);
                match (min, max) {
                    (0, Some(1)) => o.push('?'),
                    (0, None) => o.push('*'),
                    (1, None) => o.push('+'),
                    (n, None) => o.push_str(&format!("{{{},}}", n)),
                    (n, Some(m)) if n == m => o.push_str(&format!("{{{}}}", n)),
                    (n, Some(m)) => o.push_str(&format!("{{{},{}}}", n, m)),
                }
            }
        }
    }
    pub fn print(&self) -> String {
        let mut o = String::new();
        self.print_in(&mut o);
        o
    }
    pub fn sets(&self, o: &mut Vec<Set>) {
        match self {
            Rx::Set(s, _) => o.push(s.clone()),
            Rx::Cat(v) | Rx::Alt(v) => v.iter().for_each(|r| r.sets(o)),
            Rx::Rep(r, _, _) => r.sets(o),
        }
    }
    /// A random text of the language, not too long.
    pub fn sample(&self, rng: &mut Rng, o: &mut String) {
        match self {
            Rx::Set(s, _) => {
                if let Some(c) = s.sample(rng) {
                    o.push(c)
                }
            }
            Rx::Cat(v) => v.iter().for_each(|r| r.sample(rng, o)),
            Rx::Alt(v) => rng.pick(v).clone().sample(rng, o),
            Rx::Rep(r, min, max) => {
                let hi = max.map(|m| m.min(min + 4)).unwrap_or(min + 3);
                let n = rng.range(*min as usize, hi.max(*min) as usize);
                for _ in 0..n {
                    if o.len() > 400 {
                        break;
                    }
                    r.sample(rng, o);
                }
            }
        }
    }
}

/// How a character is written in a regex so that it stands for itself.
pub fn esc(c: char) -> String {
    match c {
        '\n' => "\\n".into(),
        '\t' => "\\t".into(),
        '\r' => "\\r".into(),
        '/' | '\\' | '.' | '*' | '+' | '?' | '(' | ')' | '[' | ']' | '{' | '}' | '|' | '^' | '$' | '-' | '&'
        | '~' | '#' => format!("\\{}", c),
        c if (c as u32) < 32 => format!("\\x{:02x}", c as u32),
        c => c.to_string(),
    }
}

// ---------------------------------------------------------------- derivatives

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
enum D {
    Nothing,
    Eps,
    Set(Set),
    Cat(Rc<D>, Rc<D>),
    Alt(BTreeSet<Rc<D>>),
    Rep(Rc<D>, u32, Option<u32>),
}

fn nullable(d: &D) -> bool {
    match d {
        D::Nothing | D::Set(_) => false,
        D::Eps => true,
        D::Cat(a, b) => nullable(a) && nullable(b),
        D::Alt(v) => v.iter().any(|x| nullable(x)),
        D::Rep(r, min, _) => *min == 0 || nullable(r),
    }
}

fn cat(a: Rc<D>, b: Rc<D>) -> Rc<D> {
    match (&*a, &*b) {
        (D::Nothing, _) | (_, D::Nothing) => Rc::new(D::Nothing),
        (D::Eps, _) => b,
        (_, D::Eps) => a,
        (D::Cat(x, y), _) => cat(x.clone(), cat(y.clone(), b)),
        _ => Rc::new(D::Cat(a, b)),
    }
}

fn alt(items: impl IntoIterator<Item = Rc<D>>) -> Rc<D> {
    let mut s = BTreeSet::new();
    for i in items {
        match &*i {
            D::Nothing => {}
            D::Alt(v) => s.extend(v.iter().cloned()),
            _ => {
                s.insert(i);
            }
        }
    }
    match s.len() {
        0 => Rc::new(D::Nothing),
        1 => s.into_iter().next().unwrap(),
        _ => Rc::new(D::Alt(s)),
    }
}

fn rep(r: Rc<D>, min: u32, max: Option<u32>) -> Rc<D> {
    if max == Some(0) {
        return Rc::new(D::Eps);
    }
    match &*r {
        D::Nothing => Rc::new(if min == 0 { D::Eps } else { D::Nothing }),
        D::Eps => Rc::new(D::Eps),
        _ => {
            if min == 1 && max == Some(1) {
                return r;
            }
            Rc::new(D::Rep(r, min, max))
        }
    }
}

fn conv(r: &Rx) -> Rc<D> {
    match r {
        Rx::Set(s, _) => Rc::new(if s.is_empty() { D::Nothing } else { D::Set(s.clone()) }),
        Rx::Cat(v) => v.iter().rev().fold(Rc::new(D::Eps), |acc, x| cat(conv(x), acc)),
        Rx::Alt(v) => alt(v.iter().map(conv)),
        Rx::Rep(r, min, max) => rep(conv(r), *min, *max),
    }
}

fn deriv(d: &Rc<D>, c: u32) -> Rc<D> {
    match &**d {
        D::Nothing | D::Eps => Rc::new(D::Nothing),
        D::Set(s) => Rc::new(if s.has(c) { D::Eps } else { D::Nothing }),
        D::Cat(a, b) => {
            let l = cat(deriv(a, c), b.clone());
            if nullable(a) {
                alt([l, deriv(b, c)])
            } else {
                l
            }
        }
        D::Alt(v) => alt(v.iter().map(|x| deriv(x, c))),
        D::Rep(r, min, max) => {
            cat(deriv(r, c), rep(r.clone(), min.saturating_sub(1), max.map(|m| m - 1)))
        }
    }
}

/// Deterministic automaton of one regular expression; state 0 is the start, `DEAD` the sink.
pub struct Dfa {
    pub classes: Vec<(u32, u32)>,
    /// transitions[state][class]
    pub next: Vec<Vec<u32>>,
    pub accept: Vec<bool>,
}

pub const DEAD: u32 = u32::MAX;

pub fn classes_of(sets: &[Set]) -> Vec<(u32, u32)> {
    let mut cuts = BTreeSet::new();
    cuts.insert(0u32);
    cuts.insert(1u32);
    for s in sets {
        for (a, b) in &s.0 {
            cuts.insert(*a);
            if *b < MAXC {
                cuts.insert(b + 1);
            }
        }
    }
    let v: Vec<u32> = cuts.into_iter().collect();
    (0..v.len()).map(|i| (v[i], if i + 1 < v.len() { v[i + 1] - 1 } else { MAXC })).collect()
}

pub fn class_index(classes: &[(u32, u32)], c: u32) -> usize {
    match classes.binary_search_by(|(a, _)| a.cmp(&c)) {
        Ok(i) => i,
        Err(i) => i - 1,
    }
}

impl Dfa {
    pub fn build(r: &Rx, cap: usize) -> Option<Dfa> {
        let mut sets = Vec::new();
        r.sets(&mut sets);
        let classes = classes_of(&sets);
        Dfa::build_over(r, classes, cap)
    }
    pub fn build_over(r: &Rx, classes: Vec<(u32, u32)>, cap: usize) -> Option<Dfa> {
        let start = conv(r);
        let mut ids: HashMap<Rc<D>, u32> = HashMap::new();
        let mut list = vec![start.clone()];
        ids.insert(start, 0);
        let mut next: Vec<Vec<u32>> = Vec::new();
        let mut accept = Vec::new();
        let mut i = 0;
        while i < list.len() {
            let d = list[i].clone();
            accept.push(nullable(&d));
            let mut row = Vec::with_capacity(classes.len());
            for (a, _) in &classes {
                let t = deriv(&d, *a);
                if *t == D::Nothing {
                    row.push(DEAD);
                    continue;
                }
                let n = list.len() as u32;
                let id = *ids.entry(t.clone()).or_insert_with(|| {
                    list.push(t);
                    n
                });
                row.push(id);
            }
            next.push(row);
            if list.len() > cap {
                return None;
            }
            i += 1;
        }
        Some(Dfa { classes, next, accept })
    }
    pub fn step(&self, s: u32, c: u32) -> u32 {
        if s == DEAD {
            return DEAD;
        }
        self.next[s as usize][class_index(&self.classes, c)]
    }
    pub fn accepts(&self, text: &str) -> bool {
        let mut s = 0;
        for c in text.chars() {
            s = self.step(s, c as u32);
            if s == DEAD {
                return false;
            }
        }
        self.accept[s as usize]
    }
}

/// A text on which two expressions differ, if there is one (exact: product of full automata).
pub fn difference(a: &Rx, b: &Rx, cap: usize) -> Option<Option<String>> {
    let mut sets = Vec::new();
    a.sets(&mut sets);
    b.sets(&mut sets);
    let classes = classes_of(&sets);
    let da = Dfa::build_over(a, classes.clone(), cap)?;
    let db = Dfa::build_over(b, classes.clone(), cap)?;
    let acc = |d: &Dfa, s: u32| s != DEAD && d.accept[s as usize];
    let mut seen = HashMap::new();
    let mut queue = std::collections::VecDeque::new();
    seen.insert((0u32, 0u32), None::<((u32, u32), u32)>);
    queue.push_back((0u32, 0u32));
    while let Some((x, y)) = queue.pop_front() {
        if acc(&da, x) != acc(&db, y) {
            let mut out = Vec::new();
            let mut cur = (x, y);
            while let Some(Some((p, c))) = seen.get(&cur) {
                out.push(char::from_u32(*c).unwrap_or('\u{fffd}'));
                cur = *p;
            }
            out.reverse();
            return Some(Some(out.into_iter().collect()));
        }
        for (i, (lo, hi)) in classes.iter().enumerate() {
            if *hi == 0 || (*lo >= 0xD800 && *hi <= 0xDFFF) {
                continue;
            }
            let n = (
                if x == DEAD { DEAD } else { da.next[x as usize][i] },
                if y == DEAD { DEAD } else { db.next[y as usize][i] },
            );
            if n != (DEAD, DEAD) && !seen.contains_key(&n) {
                let c = if (0xD800..=0xDFFF).contains(lo) { 0xE000 } else { *lo };
                seen.insert(n, Some(((x, y), c)));
                queue.push_back(n);
            }
        }
    }
    Some(None)
}

/// Our reading of lapex's own pattern type.
pub fn from_pattern(p: &lapex_input::Pattern) -> Rx {
    use lapex_input::{Characters, Pattern};
    fn chars(c: &Characters) -> (u32, u32) {
        match c {
            Characters::Single(c) => (*c as u32, *c as u32),
            Characters::Range(a, b) => (*a as u32, *b as u32),
        }
    }
    match p {
        Pattern::Sequence { elements } => Rx::Cat(elements.iter().map(from_pattern).collect()),
        Pattern::Alternative { elements } => Rx::Alt(elements.iter().map(from_pattern).collect()),
        Pattern::Repetition { min, max, inner } => Rx::Rep(Box::new(from_pattern(inner)), *min, *max),
        Pattern::CharSet { chars: cs, negated } => {
            let s = Set::new(cs.iter().map(chars).collect());
            Rx::Set(if *negated { s.negate() } else { s }, String::new())
        }
        Pattern::Char { chars: c } => Rx::Set(Set::new(vec![chars(c)]), String::new()),
    }
}
