//! C01 and C04: the automaton built from the token rules, and precedence ties.
use lapex_automaton::{AutomatonState, Dfa as LDfa, StateId};
use lapex_input::{Spanned, TokenRule};
use lapexmon::ctx::Ctx;
use lapexmon::glue::*;
use lapexmon::lexers::*;
use lapexmon::lexspec::*;
use lapexmon::model::*;
use lapexmon::rx::*;
use lapexmon::util::*;
use lapexmon::{gen, run};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};

fn main() {
    run::main(&[("C01", c01), ("C04", c04)]);
}

/// Token rules of any kind, empty matches included.
fn any_toks(rng: &mut Rng) -> Vec<Tok> {
    let n = rng.range(1, 5);
    let mut v: Vec<Tok> = Vec::new();
    let words = ["a", "ab", "ba", "abc", ".", "*", "a|b", "(a", "[a]", "a+", "\\d", "{2}", "a\\", "^", "$", "é", "日b", "//", "'", "ab{2}", "\\\"", "b\\\"", "\\\"\\\""];
    while v.len() < n {
        let name = format!("T{}", ["A", "B", "C", "D", "E"][v.len()]);
        let pat = if rng.pct(30) {
            // a backslash only ever stands before another character in a literal
            let w = if rng.pct(25) { gen::random_word(rng) } else { rng.pick(&words).to_string() };
            if w == "a\\" {
                TokPat::Lit("\\a".into())
            } else {
                TokPat::Lit(w)
            }
        } else {
            let rx = if rng.pct(20) { gen::common_rx(rng) } else { let d = rng.range(0, 4); gen::random_rx(rng, d) };
            if !gen::rx_supported(&rx) {
                continue;
            }
            TokPat::Re(rx)
        };
        v.push(Tok { name, prec: None, pat });
    }
    v
}

type Built<'r> = LDfa<Vec<&'r Spanned<TokenRule<'r>>>, usize>;

struct Walk {
    trans: Vec<BTreeMap<usize, usize>>,
    accept: Vec<BTreeSet<usize>>,
    start: usize,
}

/// The automaton as plain tables; accepting rules by index of `toks`.
fn tables(dfa: &Built, toks: &[Tok], twice: &mut bool) -> Walk {
    let ids: Vec<StateId> = dfa.states().map(|s| s.0).collect();
    let ix: HashMap<StateId, usize> = ids.iter().enumerate().map(|(i, s)| (*s, i)).collect();
    let mut trans = Vec::new();
    let mut accept = Vec::new();
    for (id, st) in dfa.states() {
        let mut t = BTreeMap::new();
        for (w, to) in dfa.transitions_from(id) {
            if t.insert(*w, ix[&to]).map(|o| o != ix[&to]).unwrap_or(false) {
                *twice = true;
            }
        }
        trans.push(t);
        accept.push(match st {
            AutomatonState::Accepting(rules) => {
                rules.iter().filter_map(|r| toks.iter().position(|t| t.name == r.inner.name)).collect()
            }
            _ => BTreeSet::new(),
        });
    }
    Walk { trans, accept, start: 0 }
}

fn grammar_text(toks: &[Tok]) -> String {
    lexer_spec(toks.to_vec()).0.text()
}

struct Outcome {
    edges: u64,
    states: u64,
    accepting: u64,
    bad: Option<(String, String)>,
}

/// Walk both automata over every class of characters.
fn compare(toks: &[Tok], l: &LexSpec, text: &str) -> Outcome {
    let mut out = Outcome { edges: 0, states: 0, accepting: 0, bad: None };
    let rs = match read_rules(text) {
        Ok(r) => r,
        Err(e) => {
            out.bad = Some(("refused".into(), format!("the front end refuses the token rules: {}", e)));
            return out;
        }
    };
    let built = guard(|| {
        let alphabet = lapex_lexer::generate_alphabet(&rs.token_rules);
        let (entry, nfa) = lapex_lexer::generate_nfa(&alphabet, &rs.token_rules);
        let dfa = nfa.powerset_construction(entry);
        (alphabet, dfa)
    });
    let (alphabet, dfa) = match built {
        Ok(x) => x,
        Err(p) => {
            out.bad = Some(("panic".into(), format!("building the automaton panics: {}", p)));
            return out;
        }
    };
    let mut twice = false;
    let w = tables(&dfa, toks, &mut twice);
    if twice {
        out.bad = Some(("nondeterministic".into(), "a state of the automaton has two targets for one alphabet range".into()));
        return out;
    }
    // common refinement of both partitions, the surrogates left out
    let mut cuts: BTreeSet<u32> = [1u32, 0xE000, 0xD800].into_iter().collect();
    for (a, b) in &l.classes {
        cuts.insert(*a);
        cuts.insert(b + 1);
    }
    for r in alphabet.get_ranges() {
        cuts.insert(*r.start());
        cuts.insert(r.end() + 1);
    }
    let mut classes: Vec<(char, Option<usize>, usize)> = Vec::new();
    for c in cuts {
        if c == 0 || c > MAXC {
            continue;
        }
        if let Some(ch) = char::from_u32(c) {
            let found = guard(|| alphabet.find_range(c)).unwrap_or(None);
            classes.push((ch, found, class_index(&l.classes, c)));
        }
    }
    // classes that behave alike on both sides count once
    let mut uniq = BTreeSet::new();
    classes.retain(|c| uniq.insert((c.1, c.2)));
    let mut seen: HashMap<(Option<usize>, Vec<u32>), usize> = HashMap::new();
    let mut back: Vec<Option<(usize, char)>> = Vec::new();
    let mut q = VecDeque::new();
    let s0 = (Some(w.start), l.start());
    seen.insert(s0.clone(), 0);
    back.push(None);
    q.push_back((s0, 0));
    let path = |back: &Vec<Option<(usize, char)>>, mut i: usize| {
        let mut t = Vec::new();
        while let Some((p, c)) = back[i] {
            t.push(c);
            i = p;
        }
        t.reverse();
        t.into_iter().collect::<String>()
    };
    while let Some(((g, o), id)) = q.pop_front() {
        out.states += 1;
        for (ch, gr, oc) in &classes {
            out.edges += 1;
            let gn = g.and_then(|s| gr.and_then(|r| w.trans[s].get(&r).copied()));
            let on = l.step_class(&o, *oc);
            if gn.is_none() && LexSpec::dead(&on) {
                continue;
            }
            let key = (gn, on);
            if seen.contains_key(&key) {
                continue;
            }
            let nid = back.len();
            back.push(Some((id, *ch)));
            let ours: BTreeSet<usize> = l.matching(&key.1).into_iter().collect();
            let theirs = gn.map(|s| w.accept[s].clone()).unwrap_or_default();
            if !ours.is_empty() {
                out.accepting += 1;
            }
            if ours != theirs {
                let name = |s: &BTreeSet<usize>| s.iter().map(|i| toks[*i].name.clone()).collect::<Vec<_>>().join(" ");
                out.bad = Some((
                    if ours.is_superset(&theirs) { "misses" } else { "extra" }.into(),
                    format!(
                        "the text {:?} is matched by [{}], the automaton built from the rules matches it with [{}]",
                        path(&back, nid),
                        name(&ours),
                        name(&theirs)
                    ),
                ));
                return out;
            }
            seen.insert(key.clone(), nid);
            if seen.len() > 6000 {
                return out;
            }
            q.push_back((key, nid));
        }
    }
    out
}

fn c01(ctx: &'static Ctx) {
    ctx.describe(
        "random and curated token rule sets (empty matches, overlapping classes, nested and bounded repetitions, Unicode included); the automaton the generator builds and our own derivative automata are walked in step over every class of characters from every reachable pair of states, so every text over the rules' alphabet is decided up to the state cap; then written-out patterns in the regex dialect are compared with the regex crate's matcher on texts derived from both sides; distinct by token rules",
        &["our derivatives of the pattern we printed are its meaning", "for the dialect features of the regex syntax (\\d, \\p{..}, flags) the regex crate decides"],
    );
    let sets: Vec<(String, Vec<Tok>)> = curated_toks().into_iter().map(|(n, t)| (n.to_string(), t)).collect();
    let n = ctx.scale(24000, 200000);
    let budget = ctx.budget(25, 400);
    let res = par_map(sets.len() + n, |i| {
        if ctx.over(budget) {
            return None;
        }
        let (label, toks) = if i < sets.len() {
            sets[i].clone()
        } else {
            let mut rng = ctx.rng("c01", i as u64);
            (format!("random{}", i), if i % 50 == 7 { gen::large_toks(&mut rng) } else if i % 400 == 9 { gen::many_chars(&mut rng, 150 + i % 500) } else { any_toks(&mut rng) })
        };
        let l = LexSpec::new(&toks, 700)?;
        let text = grammar_text(&toks);
        let o = ctx.case(&format!("c01/{}", label), || text.clone(), || compare(&toks, &l, &text))?;
        ctx.evals(o.edges);
        ctx.count("pairs of automaton states visited", o.states);
        ctx.count("transitions compared", o.edges);
        ctx.count("states with a matching rule", o.accepting);
        ctx.count("token rule sets", 1);
        ctx.distinct(hash_str(&text));
        if i % 701 == 3 {
            ctx.sample(|| format!("{} -> {} state pairs, {} transitions", text, o.states, o.edges));
        }
        if let Some((k, what)) = o.bad {
            ctx.violation(&k, &what, format!("{}\n{}", text, what));
        }
        Some(())
    });
    drop(res);
    raw(ctx);
}

const RAW: [&str; 76] = [
    r"\d+", r"\w+", r"\s", r"\D", r"\W\w", r"\S+", r"[\d_]+", r"[^\d]", r"[^\w\s]+", r"\p{Greek}+", r"\P{L}", r"\pL\pN*", r"\p{Lu}\p{Ll}*",
    r"(?i)abc", r"(?i)[a-f]+x", r"(?i:k)ey", r"(?s).", r"(?s)a.b", r"(?x) a b # c", r"(?-u)abc", r"[[:alpha:]]+", r"[[:^digit:]]",
    r"[[:xdigit:]]{2}", r"\x41\x7A", r"\x{1F600}", r"\u00e9+", r"\U0001F600", r"[a-z&&[^aeiou]]+", r"[a-z--m-p]", r"[a-g~~c-k]", r"(?:ab)+c",
    r"(?P<n>x|y)z", r"(?<n>x|y)z", r"a\.b", r"\*\+\?", r"\(\)", r"\[\]", r"\{\}", r"\|", r"\^\$", r"\\n", r"\n\t", r"\/\/", r"[\/]+", r"[\]\[]",
    r"[\\-]", r"[a\-z]", r"[^a]", r"[^a-z\n]+", r".", r".+", r"a|b|cd", r"(a|b)*c", r"a{3}", r"a{2,}", r"a{2,4}", r"(ab){2,3}c", r"(a|bc){1,2}d",
    r"(a?){3}b", r"(a*b){2}", r"((a|b)+c)*d", r"x(y(z)?)?", r"[0-9]{1,3}(\.[0-9]{1,3}){3}", r"[+-]?\d+([eE][+-]?\d+)?", r"[\u{3b1}-\u{3c9}]+",
    r"[日本]+語?", r"é|è|ê", r"ß", r"(?i)ß", r"(?i)σ", r"a(b|c|d(e|f))g", r"(foo|foobar)(bar)?", r"((((x))))", r"[a][b][c]", r"(a|ab)(c|bcd)(d*)",
    r"\x01-\x1f",
];

/// A random text denoted by a regex according to its syntax tree.
fn sample_hir(h: &regex_syntax::hir::Hir, rng: &mut Rng, o: &mut String) {
    use regex_syntax::hir::{Class, HirKind};
    match h.kind() {
        HirKind::Empty | HirKind::Look(_) => {}
        HirKind::Literal(l) => o.push_str(&String::from_utf8_lossy(&l.0)),
        HirKind::Class(Class::Unicode(u)) => {
            let s = Set::new(u.iter().map(|r| (r.start() as u32, r.end() as u32)).collect());
            if let Some(c) = s.sample(rng) {
                o.push(c);
            }
        }
        HirKind::Class(Class::Bytes(b)) => {
            if let Some(r) = b.iter().next() {
                o.push(r.start() as char);
            }
        }
        HirKind::Repetition(r) => {
            let hi = r.max.unwrap_or(r.min + 3).min(r.min + 3);
            for _ in 0..rng.range(r.min as usize, hi as usize) {
                sample_hir(&r.sub, rng, o);
            }
        }
        HirKind::Capture(c) => sample_hir(&c.sub, rng, o),
        HirKind::Concat(v) => v.iter().for_each(|x| sample_hir(x, rng, o)),
        HirKind::Alternation(v) => sample_hir(rng.pick(v), rng, o),
    }
}

fn raw(ctx: &Ctx) {
    let per = ctx.scale(400, 3000);
    par_map(RAW.len(), |i| {
        let pat = RAW[i];
        let text = format!("token T = /{}/;\ntoken U = \"uu\";\nentry s;\nprod s = T;\n", pat);
        ctx.case(&format!("c01/raw{}", i), || text.clone(), || {
            let re = regex::Regex::new(&format!("\\A(?:{})\\z", pat.replace("# c", "")));
            let hir = regex_syntax::parse(pat);
            let (re, hir) = match (re, hir) {
                (Ok(a), Ok(b)) => (a, b),
                _ => return,
            };
            let rs = match read_rules(&text) {
                Ok(r) => r,
                Err(_) => {
                    ctx.count("written-out patterns refused", 1);
                    return;
                }
            };
            let built = guard(|| {
                let a = lapex_lexer::generate_alphabet(&rs.token_rules);
                let (e, n) = lapex_lexer::generate_nfa(&a, &rs.token_rules);
                let d = n.powerset_construction(e);
                (a, d)
            });
            let (alphabet, dfa) = match built {
                Ok(x) => x,
                Err(p) => {
                    ctx.violation("raw-panic", "building the automaton panics", format!("{}\n{}", text, p));
                    return;
                }
            };
            let toks = vec![Tok::lit("T", "x")];
            let w = tables(&dfa, &toks, &mut false);
            let mut rng = ctx.rng("c01-raw", i as u64);
            let mut texts: BTreeSet<String> = BTreeSet::new();
            let edges: Vec<char> = alphabet
                .get_ranges()
                .iter()
                .flat_map(|r| [*r.start(), *r.end()])
                .filter(|c| *c != 0)
                .filter_map(char::from_u32)
                .collect();
            for k in 0..per {
                let mut t = String::new();
                if k % 4 == 3 {
                    for _ in 0..rng.range(1, 4) {
                        t.push(*rng.pick(&edges));
                    }
                } else {
                    sample_hir(&hir, &mut rng, &mut t);
                    if k % 4 == 1 && !t.is_empty() {
                        let mut cs: Vec<char> = t.chars().collect();
                        let p = rng.below(cs.len());
                        match rng.below(3) {
                            0 => {
                                cs.remove(p);
                            }
                            1 => cs[p] = *rng.pick(&edges),
                            _ => cs.insert(p, *rng.pick(&edges)),
                        }
                        t = cs.into_iter().collect();
                    }
                }
                texts.insert(t);
            }
            // every single character at a class border
            edges.iter().take(3000).for_each(|c| {
                texts.insert(c.to_string());
            });
            for t in texts.iter().filter(|t| !t.is_empty() && !t.contains('\0')) {
                let want = re.is_match(t);
                let mut st = Some(w.start);
                for c in t.chars() {
                    st = st.and_then(|s| alphabet.find_range(c as u32).and_then(|r| w.trans[s].get(&r).copied()));
                }
                let got = st.map(|s| w.accept[s].contains(&0)).unwrap_or(false);
                ctx.evals(1);
                ctx.count(if want { "texts matched by a written-out pattern" } else { "texts not matched by a written-out pattern" }, 1);
                if want != got {
                    ctx.violation(
                        &format!("raw/{}", pat),
                        &format!("/{}/ {} the text {:?}, the automaton disagrees", pat, if want { "denotes" } else { "does not denote" }, t),
                        text.clone(),
                    );
                    break;
                }
            }
            ctx.distinct(hash_str(&text));
            ctx.count("written-out patterns", 1);
        });
    });
}

// ------------------------------------------------------------------------ C04

fn precedence_toks(rng: &mut Rng) -> Vec<Tok> {
    // rules that overlap on purpose, with precedences around the default ones
    let mut v: Vec<Tok> = Vec::new();
    let n = rng.range(2, 5);
    let names = ["TOKA", "TOKB", "TOKC", "TOKD", "TOKE"];
    let mut last: Option<Tok> = None;
    let mut tries = 0;
    while v.len() < n && tries < 80 {
        tries += 1;
        let rx = match rng.below(6) {
            0 => gen::common_rx(rng),
            1 | 2 => {
                let d = rng.range(1, 3);
                gen::random_rx(rng, d)
            }
            3 => match &last {
                // a pattern that matches one text of an earlier rule
                Some(t) => {
                    let mut s = String::new();
                    t.rx().sample(rng, &mut s);
                    if s.is_empty() {
                        continue;
                    }
                    Rx::lit(&s)
                }
                None => continue,
            },
            4 => match &last {
                Some(t) => Rx::Alt(vec![t.rx(), Rx::lit("zz")]),
                None => continue,
            },
            _ => match &last {
                Some(t) => Rx::Cat(vec![t.rx(), Rx::Rep(Box::new(Rx::ch('a')), 0, Some(2))]),
                None => continue,
            },
        };
        if !gen::rx_supported(&rx) {
            continue;
        }
        let mut t = Tok { name: names[v.len()].into(), prec: None, pat: TokPat::Re(rx.clone()) };
        if rng.pct(30) {
            let mut s = String::new();
            rx.sample(rng, &mut s);
            if !s.is_empty() && !s.contains(|c| c == '"' || c == '\\' || c == '\n' || c == '\0') {
                t.pat = TokPat::Lit(s);
            }
        }
        if rng.pct(45) {
            // near the precedence of some other rule
            let base = last.as_ref().map(|l| l.precedence()).unwrap_or(t.precedence()) as i64;
            let p = base + rng.range(0, 4) as i64 - 2;
            t.prec = Some(p.clamp(0, 65535) as u32);
        }
        last = Some(t.clone());
        v.push(t);
    }
    if v.is_empty() {
        v.push(Tok::lit("TOKA", "a"));
    }
    v
}

fn words(text: &str) -> BTreeSet<String> {
    text.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).map(|s| s.to_string()).collect()
}

fn c04(ctx: &'static Ctx) {
    ctx.describe(
        "random token rule sets whose rules overlap on purpose, with explicit precedences at, just above and just below the default ones; our own automata find every set of rules tied on some text (or show there is none); the whole generation is run and its outcome, its message and the files written are compared with that; distinct by token rules",
        &["our derivative automata find all ties up to the state cap; rule sets beyond it are left out"],
    );
    let n = ctx.scale(20000, 150000);
    let budget = ctx.budget(25, 400);
    par_map(n, |i| {
        if ctx.over(budget) {
            return;
        }
        let mut rng = ctx.rng("c04", i as u64);
        let toks = if i < 40 {
            // single rules and literals
            let e = *rng.pick(&[0, 100]);
            gen::random_toks(&mut rng, e)
        } else if i % 20 == 9 {
            ctx.count("rule sets with repetition counts and literals in the hundreds", 1);
            gen::large_toks(&mut rng)
        } else if rng.pct(40) {
            gen::overlapping_toks(&mut rng)
        } else {
            precedence_toks(&mut rng)
        };
        let toks: Vec<Tok> = toks
            .into_iter()
            .enumerate()
            .map(|(k, mut t)| {
                t.name = ["TOKA", "TOKB", "TOKC", "TOKD", "TOKE"][k % 5].into();
                t
            })
            .collect();
        if toks.iter().any(|t| t.pat_text().contains("TOK")) {
            return;
        }
        let ties = match LexSpec::new(&toks, 700).and_then(|l| l.ties(4000)) {
            Some(t) => t,
            None => {
                ctx.count("rule sets beyond the state cap", 1);
                return;
            }
        };
        let text = grammar_text(&toks);
        let lang = if i % 3 == 0 { L::Cpp } else { L::Rust };
        let dir = ctx.work.join(format!("g{}", i));
        std::fs::create_dir_all(&dir).unwrap();
        let gp = dir.join("g.lapex");
        std::fs::write(&gp, &text).unwrap();
        let g = match ctx.case(&format!("c04/{}", i), || text.clone(), || generate(true, A::Lr1, false, &gp, &dir, lang)) {
            Some(g) => g,
            None => return,
        };
        let lexer_written = dir.join("lexer.rs").exists() || dir.join("lexer.cpp").exists() || dir.join("lexer.h").exists();
        let parser_written = dir.join("parser.rs").exists() || dir.join("parser.cpp").exists() || dir.join("parser.h").exists();
        let _ = std::fs::remove_dir_all(&dir);
        ctx.evals(1);
        ctx.distinct(hash_str(&text));
        ctx.count(if ties.is_empty() { "rule sets without a tie" } else { "rule sets with a tie" }, 1);
        let show: Vec<String> = ties
            .iter()
            .map(|(t, r)| format!("{:?}: {}", t, r.iter().map(|k| toks[*k].name.clone()).collect::<Vec<_>>().join(" ")))
            .collect();
        let full = format!("{}\nties by our automata:\n  {}\noutcome: {}\n", text, show.join("\n  "), strip_ansi(&g.text()));
        if i % 500 == 9 {
            ctx.sample(|| full.clone());
        }
        let bad = |k: &str, t: &str| ctx.violation(k, t, full.clone());
        match (&g, ties.is_empty()) {
            (Gen::Done, true) => {
                if !lexer_written {
                    bad("no-lexer", "success is reported and no lexer is written");
                }
            }
            (Gen::Done, false) => bad("silent", "rules tie on a text and the generation succeeds"),
            (Gen::Panic(_), _) => bad("panic", "the generation panics"),
            (Gen::Errors(_), true) => bad("refused", "no rules tie on any text and the generation is refused"),
            (Gen::Errors(v), false) => {
                ctx.count("refusals examined", 1);
                if lexer_written || parser_written {
                    bad("written", "a lexer or parser is written although rules tie");
                }
                let named: BTreeSet<String> = words(&strip_ansi(&v.join("\n"))).into_iter().filter(|w| w.starts_with("TOK")).collect();
                let fits = ties.iter().any(|(_, r)| {
                    let tied: BTreeSet<String> = r.iter().map(|k| toks[*k].name.clone()).collect();
                    named == tied
                });
                if named.len() < 2 || !fits {
                    bad("named", &format!("the error names {:?}, which are not the rules tied on any text", named));
                }
            }
        }
    });
}
