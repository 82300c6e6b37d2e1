//! Grammar classes, conflict reports and printed tables.
use crate::cfg::*;
use crate::ctx::Ctx;
use crate::e2e::*;
use crate::gen;
use crate::glue::*;
use crate::model::*;
use crate::parsers::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::path::Path;

/// Two equal plain rules make every class question moot.
fn twins(c: &Cfg) -> bool {
    let mut seen = HashSet::new();
    c.rules.iter().any(|r| !seen.insert(r.clone()))
}

fn parser_files(dir: &Path) -> Vec<String> {
    read_tree(dir).keys().filter(|k| k.starts_with("parser") || k.starts_with("visitor")).cloned().collect()
}

/// Curated and random reduced grammars, decided one by one on all cores.
fn each_grammar(ctx: &Ctx, phase: &str, n: usize, secs: (u64, u64), pads: (usize, usize), f: impl Fn(usize, &str, &Spec, &Cfg, &Path) + Sync) {
    let cur = gen::curated();
    let budget = ctx.budget(secs.0, secs.1);
    par_map(cur.len() + n, |i| {
        if ctx.over(budget) {
            return;
        }
        let (name, spec) = if i < cur.len() {
            (cur[i].0.to_string(), cur[i].1.clone())
        } else {
            let mut rng = ctx.rng(phase, i as u64);
            let mut s = gen::any_spec(&mut rng);
            for _ in 0..40 {
                if Cfg::from_spec(&s).map(|c| c.reduced()).unwrap_or(false) {
                    break;
                }
                s = gen::any_spec(&mut rng);
            }
            if i % 12 == 7 {
                s = gen::limits(&mut rng, i / 12).1;
                ctx.count("grammars with long chains, long rules, empty symbols or many alternatives", 1);
            }
            if i % pads.0 == 5 {
                let n = 1 + rng.below(pads.1);
                let n = if rng.pct(60) { n.min(40) } else { n };
                if rng.pct(50) {
                    s = rng.pick(&cur).1.clone();
                }
                s = gen::pad(&s, n, &mut rng);
                ctx.count("grammars enlarged", 1);
            }
            (format!("random{}", i), s)
        };
        let spec = plain_tokens(&spec);
        let cfg = match Cfg::from_spec(&spec) {
            Some(c) if c.reduced() && c.rules.len() <= 60 + 2 * pads.1 => c,
            _ => return,
        };
        let dir = ctx.work.join(format!("g{}", i));
        std::fs::create_dir_all(&dir).unwrap();
        f(i, &name, &spec, &cfg, &dir);
        let _ = std::fs::remove_dir_all(&dir);
    });
}

pub fn c10(ctx: &'static Ctx) {
    ctx.describe(
        "curated and random reduced grammars; the LL(1) generation of a C++ parser succeeds exactly if the predict sets of our own plain rules are disjoint per non-terminal, and no parser file exists after a refusal; distinct by grammar",
        &["our FIRST, FOLLOW and predict sets", "grammars with two equal plain rules are left out"],
    );
    each_grammar(ctx, "c10", ctx.scale(30000, 300000), (25, 400), (40, 300), |i, name, spec, cfg, dir| {
        if twins(cfg) {
            return;
        }
        let want = cfg.is_ll1();
        let text = spec.text();
        let gp = dir.join("g.lapex");
        std::fs::write(&gp, &text).unwrap();
        let g = match ctx.case(&format!("c10/{}", name), || text.clone(), || generate(false, A::Ll1, false, &gp, dir, L::Cpp)) {
            Some(g) => g,
            None => return,
        };
        let files = parser_files(dir);
        ctx.evals(1);
        ctx.distinct(hash_str(&text));
        ctx.count(if want { "LL(1) grammars" } else { "grammars outside LL(1)" }, 1);
        let full = || format!("{}\npredict sets: {:?}\noutcome: {}\nfiles: {:?}\n", text, cfg.predict_sets(), g.text(), files);
        if i % 1500 == 7 {
            ctx.sample(full);
        }
        if want && !g.done() {
            ctx.violation("refused", "an LL(1) grammar is refused", full());
        }
        if !want && g.done() {
            ctx.violation("accepted", "a grammar outside LL(1) is accepted", full());
        }
        if !g.done() && !files.is_empty() {
            ctx.violation("written", "parser files exist after the refusal", full());
        }
        if g.done() && files.len() < 3 {
            ctx.violation("missing", "success is reported without parser files", full());
        }
    });
}

/// `lhs(3) -> a(1) • b(0)` to the rule without dot and numbers of tokens.
fn bare(item: &str) -> String {
    item.replace('•', " ").split_whitespace().collect::<Vec<_>>().join(" ")
}

fn after<'a>(lines: &[&'a str], label: &str) -> Vec<&'a str> {
    lines.windows(2).filter(|w| w[0].contains(label)).map(|w| w[1].trim()).collect()
}

pub fn c11(ctx: &'static Ctx) {
    ctx.describe(
        "curated and random reduced grammars, each tried with LR(0), LALR and LR(1); the generation succeeds exactly if our own automaton of the class has no conflict; a refusal must name a conflict our automaton has (same rule and token, or same pair of rules) and leave no parser file; distinct by grammar and class",
        &["our canonical LR(1), merged LALR(1) and LR(0) automata", "grammars with two equal plain rules are left out"],
    );
    each_grammar(ctx, "c11", ctx.scale(12000, 120000), (30, 450), (20, 110), |i, name, spec, cfg, dir| {
        if twins(cfg) {
            return;
        }
        let text = spec.text();
        let gp = dir.join("g.lapex");
        std::fs::write(&gp, &text).unwrap();
        let lang = if i % 2 == 0 { L::Rust } else { L::Cpp };
        let mut accepted = Vec::new();
        for a in [A::Lr0, A::Lalr, A::Lr1] {
            let want = match cfg.in_class(alg_of(a), 500) {
                Some(w) => w,
                None => return,
            };
            let sub = dir.join(a.name());
            std::fs::create_dir_all(&sub).unwrap();
            let g = match ctx.case(&format!("c11/{}/{}", name, a.name()), || text.clone(), || {
                generate(false, a, false, &gp, &sub, lang)
            }) {
                Some(g) => g,
                None => return,
            };
            let files = parser_files(&sub);
            ctx.evals(1);
            ctx.distinct(mix(&[hash_str(&text), a as u64]));
            ctx.count(&format!("{} grammars {} the class", a.name(), if want { "in" } else { "outside" }), 1);
            let full = || format!("{}\n{}\nfiles: {:?}\noutcome: {}\n", a.name(), text, files, strip_ansi(&g.text()));
            if i % 700 == 7 {
                ctx.sample(full);
            }
            accepted.push(g.done());
            if want && !g.done() {
                ctx.violation(&format!("refused/{}", a.name()), "a grammar of the class is refused", full());
            }
            if !want && g.done() {
                ctx.violation(&format!("accepted/{}", a.name()), "a grammar outside the class is accepted", full());
            }
            if !g.done() && !files.is_empty() {
                ctx.violation(&format!("written/{}", a.name()), "parser files exist after the refusal", full());
            }
            if want || g.done() {
                continue;
            }
            let errs = match &g {
                Gen::Errors(v) => v,
                other => {
                    ctx.violation(&format!("unreported/{}", a.name()), "the refusal is no conflict report", format!("{}{}", full(), other.text()));
                    continue;
                }
            };
            let info = match Info::of(&text, &spec.toks) {
                Ok(i) => i,
                Err(_) => continue,
            };
            let icfg = info.cfg(spec.toks.len());
            let auto = match icfg.automaton(alg_of(a), 700) {
                Some(x) => x,
                None => continue,
            };
            let rule_of = |item: &str| info.rules.iter().position(|r| bare(&r.display) == bare(item));
            let mut named = 0;
            let mut genuine = 0;
            for e in errs {
                let e = strip_ansi(e);
                let lines: Vec<&str> = e.lines().map(|l| l.trim().trim_start_matches('|').trim()).collect();
                let shift = after(&lines, "Could shift token");
                let red = after(&lines, "Or reduce item");
                let rr = after(&lines, "Could reduce this item");
                for (s, r) in shift.iter().zip(&red) {
                    named += 1;
                    let t = spec.toks.iter().position(|t| t.name == *s);
                    if let (Some(t), Some(r)) = (t, rule_of(r)) {
                        if auto.conflicts.contains(&Conf::ShiftReduce(Some(r), t as u16)) {
                            genuine += 1;
                        }
                    }
                }
                if !rr.is_empty() {
                    named += 1;
                    let rs: BTreeSet<usize> = rr.iter().map(|r| rule_of(r).unwrap_or(usize::MAX)).collect();
                    if rs.len() > 1
                        && auto.conflicts.iter().any(|c| match c {
                            Conf::ReduceReduce(v) => v.iter().filter(|x| rs.contains(x)).count() > 1,
                            _ => false,
                        })
                    {
                        genuine += 1;
                    }
                }
            }
            ctx.count("conflicts named in reports", named);
            ctx.count("named conflicts confirmed", genuine);
            if genuine == 0 {
                ctx.violation(
                    &format!("genuine/{}", a.name()),
                    "the report names no genuine conflict",
                    format!("{}\nconflicts of our automaton: {:?}\n", full(), auto.conflicts),
                );
            }
        }
        if accepted.len() == 3 && ((accepted[0] && !accepted[1]) || (accepted[1] && !accepted[2])) {
            ctx.violation("nesting", "the accepted classes are not nested", text.clone());
        }
    });
}

// ------------------------------------------------------------------------ printed tables

pub struct Table {
    /// number and text of the rules listed
    pub rules: Vec<(usize, String)>,
    pub symbols: Vec<String>,
    pub rows: Vec<Vec<String>>,
}

pub fn read_table(text: &str) -> Result<Table, String> {
    let mut rules = Vec::new();
    let mut lines = text.lines();
    if lines.next().map(|l| l.trim()) != Some("Rules:") {
        return Err("no list of rules".into());
    }
    for l in lines.by_ref() {
        if l.trim().is_empty() {
            break;
        }
        let (n, r) = l.split_once(": ").or(l.split_once(':')).ok_or(format!("rule line {:?}", l))?;
        rules.push((n.trim().parse().map_err(|_| format!("rule number {:?}", n))?, r.trim().to_string()));
    }
    let head = lines.next().ok_or("no header")?;
    let cells = |l: &str| -> Vec<String> {
        let v: Vec<String> = l.split('|').map(|x| x.trim().to_string()).collect();
        v[1..v.len().max(2) - 1].to_vec()
    };
    let symbols = cells(head);
    let mut rows = Vec::new();
    for l in lines {
        if l.trim().is_empty() {
            continue;
        }
        let n: usize = l.split('|').next().unwrap().trim().parse().map_err(|_| format!("row {:?}", l))?;
        if n != rows.len() {
            return Err(format!("row number {} where {} is expected", n, rows.len()));
        }
        let c = cells(l);
        if c.len() != symbols.len() {
            return Err(format!("row {} has {} cells for {} columns", n, c.len(), symbols.len()));
        }
        rows.push(c);
    }
    Ok(Table { rules, symbols, rows })
}

fn split_name(s: &str) -> Option<(&str, u16)> {
    let (n, k) = s.strip_suffix(')')?.rsplit_once('(')?;
    Some((n, k.parse().ok()?))
}

/// Column of every symbol; `None` is the end marker.
pub struct Columns {
    pub of: HashMap<Option<S>, usize>,
    /// how a symbol is written
    pub shown: HashMap<S, String>,
}

pub fn columns(t: &Table, spec: &Spec, info: &Info) -> Result<Columns, String> {
    let mut of = HashMap::new();
    let mut shown = HashMap::new();
    for (i, s) in t.symbols.iter().enumerate() {
        if s == "<end>" {
            of.insert(None, i);
            continue;
        }
        let (n, k) = split_name(s).ok_or(format!("column {:?}", s))?;
        let sym = if let Some(x) = spec.toks.iter().position(|t| t.name == n) {
            S::T(x as u16)
        } else {
            let known = info.nts.get(k as usize).ok_or(format!("column {:?}", s))?;
            match known {
                Some(x) if x == n => {}
                None if n.starts_with('<') => {}
                _ => return Err(format!("column {:?} belongs to no symbol", s)),
            }
            S::N(k)
        };
        if of.insert(Some(sym), i).is_some() {
            return Err(format!("two columns for {:?}", s));
        }
        shown.insert(sym, s.clone());
    }
    for i in 0..spec.toks.len() {
        if !of.contains_key(&Some(S::T(i as u16))) {
            return Err(format!("no column for the token {}", spec.toks[i].name));
        }
    }
    for (i, n) in info.nts.iter().enumerate() {
        let used = info.rules.iter().any(|r| r.lhs == i as u16 || r.rhs.contains(&S::N(i as u16)));
        if used && !of.contains_key(&Some(S::N(i as u16))) {
            return Err(format!("no column for the non-terminal {} {:?}", i, n));
        }
    }
    if !of.contains_key(&None) {
        return Err("no column for the end".into());
    }
    Ok(Columns { of, shown })
}

pub fn check_rules(t: &Table, c: &Columns, info: &Info) -> Result<(), String> {
    let mut got: BTreeMap<usize, &str> = BTreeMap::new();
    for (n, r) in &t.rules {
        if got.insert(*n, r).is_some() {
            return Err(format!("rule {} is listed twice", n));
        }
    }
    for (i, r) in info.rules.iter().enumerate() {
        let rhs: Vec<String> = if r.rhs.is_empty() {
            vec!["<eps>".into()]
        } else {
            r.rhs.iter().map(|s| c.shown[s].clone()).collect()
        };
        let want = format!("{} -> {}", c.shown[&S::N(r.lhs)], rhs.join(" "));
        match got.remove(&i) {
            Some(g) if bare(g) == bare(&want) => {}
            Some(g) => return Err(format!("rule {} is listed as {:?}, it is {:?}", i, g, want)),
            None => return Err(format!("rule {} ({}) is not listed", i, want)),
        }
    }
    match got.iter().next() {
        Some((n, r)) => Err(format!("a rule {} ({}) is listed that the grammar does not have", n, r)),
        None => Ok(()),
    }
}

/// Walk the printed table and our automaton in step; number of cells compared.
pub fn check_cells(t: &Table, c: &Columns, auto: &Automaton, nt: usize, nn: usize) -> Result<u64, String> {
    let mut of: Vec<Option<usize>> = vec![None; auto.states];
    let mut back: HashMap<usize, usize> = HashMap::new();
    let mut todo = vec![0usize];
    if t.rows.is_empty() {
        return Err("no rows".into());
    }
    of[0] = Some(0);
    back.insert(0, 0);
    let mut cells = 0;
    let mut i = 0;
    while i < todo.len() {
        let st = todo[i];
        i += 1;
        let row = of[st].unwrap();
        let syms = (0..nt).map(|x| S::T(x as u16)).chain((0..nn).map(|x| S::N(x as u16))).map(Some).chain(std::iter::once(None));
        for s in syms {
            let cell = match c.of.get(&s) {
                Some(x) => &t.rows[row][*x],
                None => continue,
            };
            cells += 1;
            let mv = s.and_then(|x| auto.moves[st].get(&x)).copied();
            let la = match s {
                Some(S::T(x)) => Some(x),
                None => Some(Cfg::END),
                _ => None,
            };
            let reds: Vec<usize> = match la {
                Some(l) => auto.reduces[st].iter().filter(|r| r.1 == l).map(|r| r.0).collect(),
                None => vec![],
            };
            let n = reds.len() + mv.is_some() as usize;
            let at = || format!("row {}, column {:?}: {:?}", row, s.map(|x| c.shown[&x].clone()).unwrap_or("<end>".into()), cell);
            if n > 1 {
                if cell != "c" {
                    return Err(format!("{}, but {} actions remain", at(), n));
                }
                continue;
            }
            if let Some(to) = mv {
                let target: usize =
                    cell.strip_prefix('s').and_then(|x| x.parse().ok()).ok_or(format!("{}, expected a shift", at()))?;
                if target >= t.rows.len() {
                    return Err(format!("{} leads to no row", at()));
                }
                match of[to] {
                    Some(x) if x != target => return Err(format!("{}, expected s{}", at(), x)),
                    Some(_) => {}
                    None => {
                        if back.insert(target, to).is_some() {
                            return Err(format!("{} leads to the row of another state", at()));
                        }
                        of[to] = Some(target);
                        todo.push(to);
                    }
                }
            } else if let Some(r) = reds.first() {
                let want = if *r == usize::MAX { "a".to_string() } else { format!("r{}", r) };
                if *cell != want {
                    return Err(format!("{}, expected {}", at(), want));
                }
            } else if !(cell.is_empty() || cell == "e") {
                return Err(format!("{}, expected no action", at()));
            }
        }
    }
    Ok(cells)
}

/// Drive the printed table; reductions and shifts, and whether it accepts. None: a conflict cell is met.
pub fn drive(t: &Table, c: &Columns, info: &Info, w: &[u16]) -> Option<(Vec<Ev>, bool)> {
    let mut ev = Vec::new();
    let mut stack = vec![0usize];
    let mut i = 0;
    for _ in 0..100000 {
        let s = w.get(i).map(|t| S::T(*t));
        let cell = &t.rows[*stack.last().unwrap()][c.of[&s]];
        match cell.chars().next() {
            Some('s') => {
                ev.push(Ev::Shift(w[i] as i64, i.to_string()));
                stack.push(cell[1..].parse().ok()?);
                i += 1;
            }
            Some('r') => {
                let r: usize = cell[1..].parse().ok()?;
                let rule = info.rules.get(r)?;
                ev.push(Ev::Reduce(r));
                stack.truncate(stack.len().checked_sub(rule.rhs.len())?);
                let go = &t.rows[*stack.last()?][c.of[&Some(S::N(rule.lhs))]];
                stack.push(go.strip_prefix('s')?.parse().ok()?);
            }
            Some('a') => return Some((ev, true)),
            Some('c') => return None,
            _ => return Some((ev, false)),
        }
    }
    None
}

pub fn c23(ctx: &'static Ctx) {
    ctx.describe(
        "tables printed for curated and random grammars with every LR-family algorithm: the rule list against the grammar's rules, every cell by walking the table in step with our own automaton of the class; then compiled Rust parsers and the printed table of the same grammar are driven over the same inputs and must agree in verdict, shifts and reductions; distinct by grammar and algorithm, and by parse",
        &["our automata of the classes", "row 0 is the start state, as in every table the tool prints"],
    );
    each_grammar(ctx, "c23", ctx.scale(4000, 40000), (25, 250), (50, 110), |i, name, spec, cfg, dir| {
        if twins(cfg) {
            return;
        }
        let text = spec.text();
        let gp = dir.join("g.lapex");
        std::fs::write(&gp, &text).unwrap();
        for a in [A::Lr0, A::Lalr, A::Lr1, A::Glr] {
            let alg = if a == A::Glr { Alg::Lalr } else { alg_of(a) };
            if a != A::Glr && cfg.in_class(alg, 400) != Some(true) {
                continue;
            }
            let g = ctx.case(&format!("c23/{}/{}", name, a.name()), || text.clone(), || {
                generate(false, a, true, &gp, dir, L::Rust)
            });
            match g {
                Some(g) if g.done() => {}
                Some(_) => {
                    ctx.count("generations refused", 1);
                    continue;
                }
                None => return,
            }
            let printed = std::fs::read_to_string(dir.join("table")).unwrap_or_default();
            let info = match Info::of(&text, &spec.toks) {
                Ok(i) => i,
                Err(_) => continue,
            };
            let icfg = info.cfg(spec.toks.len());
            let auto = match icfg.automaton(alg, 500) {
                Some(x) => x,
                None => continue,
            };
            ctx.evals(1);
            ctx.distinct(mix(&[hash_str(&text), a as u64]));
            ctx.count(&format!("{} tables", a.name()), 1);
            let r = read_table(&printed).and_then(|t| {
                let c = columns(&t, spec, &info)?;
                check_rules(&t, &c, &info)?;
                let n = check_cells(&t, &c, &auto, spec.toks.len(), info.nts.len())?;
                ctx.count("conflict cells", t.rows.iter().flatten().filter(|c| *c == "c").count() as u64);
                if t.rows.len() != auto.states && auto.conflicts.is_empty() {
                    return Err(format!("{} rows for {} states", t.rows.len(), auto.states));
                }
                Ok(n)
            });
            match r {
                Ok(n) => ctx.count("cells compared", n),
                Err(e) => ctx.violation(&format!("table/{}", a.name()), &format!("the printed table is wrong: {}", e), format!("{}\n{}\n{}\n{}", a.name(), text, e, printed)),
            }
            if i % 400 == 7 {
                ctx.sample(|| format!("{} {}\n{}", a.name(), text, printed));
            }
        }
    });
    if ctx.enough() {
        return;
    }
    // tables against compiled parsers
    let st = Setup { want: ctx.scale(50, 250), exhaustive: ctx.scale(300, 1500), sampled: ctx.scale(100, 500), max_len: 24, long: 1000, deep: 0 };
    let plan = lr_plan(ctx, "c23-e2e", "c23", Kind::RustParser, &st);
    let tables: Vec<Option<(Table, Columns)>> = plan
        .batch
        .units
        .iter()
        .map(|u| {
            let dir = u.dir.join("t");
            std::fs::create_dir_all(&dir).unwrap();
            if !generate(false, u.alg, true, &u.dir.join("grammar.lapex"), &dir, L::Rust).done() {
                return None;
            }
            let t = read_table(&std::fs::read_to_string(dir.join("table")).ok()?).ok()?;
            let c = columns(&t, &u.spec, &u.info).ok()?;
            Some((t, c))
        })
        .collect();
    let ran = plan.batch.run(ctx, &plan.cases);
    let ix: HashMap<usize, usize> = plan.batch.units.iter().enumerate().map(|(i, u)| (u.id, i)).collect();
    each(ctx, &plan, &ran, |u, w, _, o| {
        let (t, c) = tables[ix[&u.id]].as_ref()?;
        let (ev, ok) = match drive(t, c, &u.info, w) {
            Some(x) => x,
            None => return Some(("stuck".into(), "the printed table cannot be driven over the input".into())),
        };
        ctx.count("parses compared with the printed table", 1);
        match &o.res {
            Res::Ok | Res::Unexpected(_) => {}
            _ => return None,
        }
        if ok != matches!(o.res, Res::Ok) {
            return Some(("verdict".into(), format!("the printed table {} the input, the parser does not agree", if ok { "accepts" } else { "rejects" })));
        }
        if ev != o.ev {
            return Some(("actions".into(), format!("the printed table gives {:?}", ev)));
        }
        None
    });
}
