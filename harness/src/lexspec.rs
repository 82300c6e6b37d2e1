//! What the token rules prescribe for a lexer: longest viable prefix, preferred rule.
use crate::model::Tok;
use crate::rx::*;
use std::collections::{HashMap, VecDeque};

pub struct LexSpec {
    pub classes: Vec<(u32, u32)>,
    pub dfas: Vec<Dfa>,
    pub prec: Vec<usize>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Lexed {
    Tok(usize),
    Err,
    Eof,
}

impl LexSpec {
    pub fn new(toks: &[Tok], cap: usize) -> Option<LexSpec> {
        let rxs: Vec<Rx> = toks.iter().map(|t| t.rx()).collect();
        LexSpec::from_rx(&rxs, toks.iter().map(|t| t.precedence()).collect(), cap)
    }

    pub fn from_rx(rxs: &[Rx], prec: Vec<usize>, cap: usize) -> Option<LexSpec> {
        let mut sets = Vec::new();
        rxs.iter().for_each(|r| r.sets(&mut sets));
        let classes = classes_of(&sets);
        let mut dfas = Vec::new();
        for r in rxs {
            dfas.push(Dfa::build_over(r, classes.clone(), cap)?);
        }
        Some(LexSpec { classes, dfas, prec })
    }

    pub fn start(&self) -> Vec<u32> {
        vec![0; self.dfas.len()]
    }

    pub fn step_class(&self, st: &[u32], class: usize) -> Vec<u32> {
        st.iter()
            .zip(&self.dfas)
            .map(|(s, d)| if *s == DEAD { DEAD } else { d.next[*s as usize][class] })
            .collect()
    }

    pub fn dead(st: &[u32]) -> bool {
        st.iter().all(|s| *s == DEAD)
    }

    /// Rules that match a text leading to this state.
    pub fn matching(&self, st: &[u32]) -> Vec<usize> {
        (0..st.len()).filter(|i| st[*i] != DEAD && self.dfas[*i].accept[st[*i] as usize]).collect()
    }

    /// Preferred rules: those of highest precedence among the matching ones.
    pub fn preferred(&self, st: &[u32]) -> Vec<usize> {
        let m = self.matching(st);
        let best = m.iter().map(|i| self.prec[*i]).max();
        m.into_iter().filter(|i| Some(self.prec[*i]) == best).collect()
    }

    /// One call: how many characters are consumed, and what is returned.
    pub fn next(&self, text: &[char], pos: usize) -> (usize, Lexed) {
        if pos >= text.len() {
            return (pos, Lexed::Eof);
        }
        let mut st = self.start();
        let mut p = pos;
        while p < text.len() {
            let n = self.step_class(&st, class_index(&self.classes, text[p] as u32));
            if Self::dead(&n) {
                break;
            }
            st = n;
            p += 1;
        }
        let pref = self.preferred(&st);
        (p, if let [i] = pref[..] { Lexed::Tok(i) } else if pref.is_empty() { Lexed::Err } else { Lexed::Tok(pref[0]) })
    }

    /// A text with tied preferred rules, and those rules (breadth first, so a shortest one);
    /// None if the automata were too big, Some(None) if there is no tie.
    #[allow(clippy::type_complexity)]
    pub fn ties(&self, cap: usize) -> Option<Vec<(String, Vec<usize>)>> {
        let mut out: Vec<(String, Vec<usize>)> = Vec::new();
        let mut seen: HashMap<Vec<u32>, Option<(Vec<u32>, u32)>> = HashMap::new();
        let mut q = VecDeque::new();
        seen.insert(self.start(), None);
        q.push_back(self.start());
        while let Some(st) = q.pop_front() {
            let p = self.preferred(&st);
            if p.len() > 1 && !out.iter().any(|o| o.1 == p) {
                let mut t = Vec::new();
                let mut cur = st.clone();
                while let Some(Some((prev, c))) = seen.get(&cur) {
                    t.push(char::from_u32(*c).unwrap_or('\u{fffd}'));
                    cur = prev.clone();
                }
                t.reverse();
                out.push((t.into_iter().collect(), p));
            }
            for (i, (lo, hi)) in self.classes.iter().enumerate() {
                if *hi == 0 || (*lo >= 0xD800 && *hi <= 0xDFFF) {
                    continue;
                }
                let n = self.step_class(&st, i);
                if Self::dead(&n) || seen.contains_key(&n) {
                    continue;
                }
                let c = if (0xD800..=0xDFFF).contains(lo) { 0xE000 } else { *lo };
                seen.insert(n.clone(), Some((st.clone(), c)));
                if seen.len() > cap {
                    return None;
                }
                q.push_back(n);
            }
        }
        Some(out)
    }
}
