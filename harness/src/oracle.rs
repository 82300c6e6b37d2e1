//! Judging recorded callbacks against the written grammar.
use crate::cfg::S;
use crate::e2e::*;
use crate::glue::Info;
use crate::model::*;
use std::collections::{BTreeSet, HashMap};

/// What stands below a node once made-up non-terminals are dissolved.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Child {
    Tok(u16),
    Named(usize),
}

/// Does the written pattern describe exactly this sequence?
pub fn pattern_matches(spec: &Spec, names: &[String], pat: &Pat, ch: &[Child]) -> bool {
    struct M<'a> {
        spec: &'a Spec,
        names: &'a [String],
        ch: &'a [Child],
        memo: HashMap<(*const Pat, usize), BTreeSet<usize>>,
    }
    impl<'a> M<'a> {
        fn ends(&mut self, p: &'a Pat, i: usize) -> BTreeSet<usize> {
            let k = (p as *const Pat, i);
            if let Some(r) = self.memo.get(&k) {
                return r.clone();
            }
            let r: BTreeSet<usize> = match p {
                Pat::Eps => BTreeSet::from([i]),
                Pat::Ref(n) => {
                    let hit = match self.ch.get(i) {
                        Some(Child::Tok(t)) => self.spec.term_index(n) == Some(*t as usize),
                        Some(Child::Named(k)) => self.spec.term_index(n).is_none() && self.names[*k] == *n,
                        None => false,
                    };
                    if hit {
                        BTreeSet::from([i + 1])
                    } else {
                        BTreeSet::new()
                    }
                }
                Pat::Seq(v) => {
                    let mut cur = BTreeSet::from([i]);
                    for q in v {
                        let mut n = BTreeSet::new();
                        for j in cur {
                            n.extend(self.ends(q, j));
                        }
                        cur = n;
                    }
                    cur
                }
                Pat::Alt(v) => v.iter().flat_map(|q| self.ends(q, i)).collect(),
                Pat::Opt(q) => {
                    let mut s = self.ends(q, i);
                    s.insert(i);
                    s
                }
                Pat::Star(q) | Pat::Plus(q) => {
                    let mut s = BTreeSet::new();
                    let mut todo: Vec<usize> = if matches!(p, Pat::Star(_)) {
                        vec![i]
                    } else {
                        self.ends(q, i).into_iter().collect()
                    };
                    while let Some(j) = todo.pop() {
                        if s.insert(j) {
                            todo.extend(self.ends(q, j));
                        }
                    }
                    s
                }
            };
            self.memo.insert(k, r.clone());
            r
        }
    }
    let mut m = M { spec, names, ch, memo: HashMap::new() };
    m.ends(pat, 0).contains(&ch.len())
}

struct Node {
    sym: S,
    /// dissolved children (for made-up non-terminals), or the node itself
    flat: Vec<Child>,
}

/// Replay callbacks bottom-up. `complete`: they must end in the entry production with all tokens.
/// Returns the number of nodes built.
pub fn replay(u: &Unit, ev: &[Ev], seq: &[i32], base: i64, complete: bool) -> Result<usize, String> {
    replay_info(&u.spec, &u.info, ev, seq, base, complete)
}

pub fn replay_info(
    spec: &Spec,
    info: &Info,
    ev: &[Ev],
    seq: &[i32],
    base: i64,
    complete: bool,
) -> Result<usize, String> {
    let names = spec.nt_names();
    let mut stack: Vec<Node> = Vec::new();
    let mut nshift = 0usize;
    let mut nodes = 0;
    for (k, e) in ev.iter().enumerate() {
        match e {
            Ev::Shift(t, d) => {
                if nshift >= seq.len() {
                    return Err(format!("callback {}: a shift more than there are tokens", k));
                }
                if *t != seq[nshift] as i64 {
                    return Err(format!("callback {}: shift of token {} where token {} is next", k, t, seq[nshift]));
                }
                let want = (base + nshift as i64).to_string();
                if *d != want {
                    return Err(format!("callback {}: shift with the data {} instead of {}", k, d, want));
                }
                nshift += 1;
                stack.push(Node { sym: S::T(*t as u16), flat: vec![Child::Tok(*t as u16)] });
            }
            Ev::Reduce(ri) => {
                let r = info.rules.get(*ri).ok_or("unknown rule")?;
                if stack.len() < r.rhs.len() {
                    return Err(format!("callback {}: {} needs more than what was built so far", k, r.display));
                }
                let below = stack.split_off(stack.len() - r.rhs.len());
                for (n, s) in below.iter().zip(&r.rhs) {
                    if n.sym != *s {
                        return Err(format!("callback {}: {} does not fit what was built so far", k, r.display));
                    }
                }
                let ch: Vec<Child> = below.into_iter().flat_map(|n| n.flat).collect();
                nodes += 1;
                let flat = match &info.nts[r.lhs as usize] {
                    None => ch,
                    Some(n) => {
                        let ni = names.iter().position(|x| x == n).ok_or("unknown production name")?;
                        let fits = spec.prods.iter().any(|p| {
                            p.name == *n
                                && p.tag == r.tag
                                && p.pat.normal() == r.pat
                                && pattern_matches(spec, &names, &p.pat, &ch)
                        });
                        if !fits {
                            return Err(format!(
                                "callback {}: {} is called for {:?}, which the written production does not describe",
                                k, r.cb_rust, ch
                            ));
                        }
                        vec![Child::Named(ni)]
                    }
                };
                stack.push(Node { sym: S::N(r.lhs), flat });
            }
            _ => return Err(format!("callback {}: not one of an LR parser", k)),
        }
    }
    if complete {
        if nshift != seq.len() {
            return Err(format!("{} shifts for {} tokens", nshift, seq.len()));
        }
        if stack.len() != 1 || stack[0].sym != S::N(info.entry) {
            return Err("the callbacks do not end in the entry production".into());
        }
    }
    Ok(nodes)
}

/// Enter/token/exit callbacks: properly nested and, if complete, a parse tree of the sequence.
pub fn ll_tree(u: &Unit, ev: &[Ev], seq: &[i32], base: i64, complete: bool) -> Result<usize, String> {
    let names = u.spec.nt_names();
    let mut stack: Vec<(usize, Vec<Child>)> = Vec::new();
    let mut nshift = 0;
    let mut root: Option<usize> = None;
    let mut nodes = 0;
    for (k, e) in ev.iter().enumerate() {
        match e {
            Ev::Shift(t, d) => {
                if *t == -1 {
                    // the end of file is shown to the visitor after the entry production
                    if root.is_none() || !stack.is_empty() {
                        return Err(format!("callback {}: end of file inside a production", k));
                    }
                    continue;
                }
                if nshift >= seq.len() {
                    return Err(format!("callback {}: a token more than there are", k));
                }
                if *t != seq[nshift] as i64 {
                    return Err(format!("callback {}: token {} where token {} is next", k, t, seq[nshift]));
                }
                let want = (base + nshift as i64).to_string();
                if *d != want {
                    return Err(format!("callback {}: token with the data {} instead of {}", k, d, want));
                }
                nshift += 1;
                match stack.last_mut() {
                    Some(s) => s.1.push(Child::Tok(*t as u16)),
                    None => return Err(format!("callback {}: token outside every production", k)),
                }
            }
            Ev::Enter(n) => {
                if root.is_some() {
                    return Err(format!("callback {}: a second top production", k));
                }
                if stack.is_empty() && names[*n] != u.spec.entry {
                    return Err(format!("callback {}: enters {} first", k, names[*n]));
                }
                stack.push((*n, vec![]));
            }
            Ev::Exit(n) => {
                let (m, ch) = stack.pop().ok_or(format!("callback {}: exit without enter", k))?;
                if m != *n {
                    return Err(format!("callback {}: exit of {} inside {}", k, names[*n], names[m]));
                }
                nodes += 1;
                if !u.spec.prods.iter().any(|p| p.name == names[m] && pattern_matches(&u.spec, &names, &p.pat, &ch)) {
                    return Err(format!("callback {}: {} made of {:?} is no production", k, names[m], ch));
                }
                match stack.last_mut() {
                    Some(s) => s.1.push(Child::Named(m)),
                    None => root = Some(m),
                }
            }
            Ev::Reduce(_) => return Err(format!("callback {}: not one of an LL parser", k)),
        }
    }
    if complete {
        if nshift != seq.len() {
            return Err(format!("{} tokens shown of {}", nshift, seq.len()));
        }
        if root.is_none() || !stack.is_empty() {
            return Err("the entry production is not left".into());
        }
    }
    Ok(nodes)
}

pub fn shifted(ev: &[Ev]) -> usize {
    ev.iter().filter(|e| matches!(e, Ev::Shift(t, _) if *t >= 0)).count()
}
