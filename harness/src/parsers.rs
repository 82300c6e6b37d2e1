//! Checks on generated Rust and C++ parsers: language, callbacks, errors.
use crate::cfg::*;
use crate::ctx::Ctx;
use crate::e2e::*;
use crate::gen;
use crate::glue::*;
use crate::model::*;
use crate::oracle::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub fn alg_of(a: A) -> Alg {
    match a {
        A::Lr0 => Alg::Lr0,
        A::Lalr => Alg::Lalr,
        _ => Alg::Lr1,
    }
}

/// A grammar whose token patterns do not matter: replace them by literals.
pub fn plain_tokens(s: &Spec) -> Spec {
    let mut s = s.clone();
    for (i, t) in s.toks.iter_mut().enumerate() {
        t.pat = TokPat::Lit(format!("t{}", i));
        t.prec = None;
    }
    s
}

pub struct G {
    pub name: String,
    pub spec: Spec,
    pub cfg: Cfg,
    pub lr0: bool,
    pub lalr: bool,
    pub lr1: bool,
    pub ll1: bool,
    /// no cyclic and no hidden left-recursive derivation
    pub tame: bool,
}

pub fn classify(name: &str, spec: &Spec, cfg: Cfg) -> Option<G> {
    let cap = 600;
    let lr1 = cfg.in_class(Alg::Lr1, cap)?;
    let lalr = cfg.in_class(Alg::Lalr, cap)?;
    let lr0 = cfg.in_class(Alg::Lr0, cap)?;
    let ll1 = cfg.is_ll1();
    let tame = !cfg.cyclic_or_hidden();
    Some(G { name: name.into(), spec: spec.clone(), cfg, lr0, lalr, lr1, ll1, tame })
}

/// Curated grammars, then random ones, until `want` of them satisfy `pred`.
pub fn grammars(ctx: &Ctx, phase: &str, want: usize, pred: impl Fn(&G) -> bool + Sync) -> Vec<G> {
    let mut out = Vec::new();
    for (n, s) in gen::curated() {
        let s = plain_tokens(&s);
        if let Some(c) = Cfg::from_spec(&s) {
            if c.reduced() {
                if let Some(g) = classify(n, &s, c) {
                    if pred(&g) {
                        out.push(g);
                    }
                }
            }
        }
    }
    // on the quick tier a part of the curated ones, varying with the seed, leaves room for random ones
    let mut rng = ctx.rng(phase, 0);
    if !ctx.thorough {
        rng.shuffle(&mut out);
        out.truncate(want / 2);
    }
    let mut idx = 0u64;
    let mut seen = HashSet::new();
    while out.len() < want && idx < 4000 {
        let batch = 64;
        let found = par_map(batch, |i| {
            let mut rng = ctx.rng(phase, 1 + idx + i as u64);
            gen::find(&mut rng, 30, |s, c| {
                classify("", s, c.clone()).map(|g| pred(&g)).unwrap_or(false) && (c.rules.len() > 2 || i % 8 == 0)
            })
        });
        for (i, f) in found.into_iter().enumerate() {
            if let Some((s, c)) = f {
                if seen.insert(hash_str(&s.text())) && out.len() < want {
                    if let Some(g) = classify(&format!("random{}", idx + i as u64), &s, c) {
                        out.push(g);
                    }
                }
            }
        }
        idx += batch as u64;
    }
    out
}

/// (LR(0) tables name every token in every reducing state: the compilers need too long for the largest.)
/// Some of these grammars inside ones with many tokens, rules and states. The classes are those of
/// the same frame with a single added production.
pub fn padded(ctx: &Ctx, phase: &str, gs: &[G], sizes: &[usize], pred: impl Fn(&G) -> bool + Sync) -> Vec<G> {
    let found = par_map(sizes.len(), |i| {
        let mut rng = ctx.rng(&format!("{}-pad", phase), i as u64);
        for _ in 0..30 {
            let g = match gs.len() {
                0 => return None,
                n => &gs[rng.below(n)],
            };
            let seed = rng.clone();
            let small = gen::pad(&g.spec, 1, &mut seed.clone());
            let large = gen::pad(&g.spec, sizes[i], &mut seed.clone());
            let (Some(cs), Some(cl)) = (Cfg::from_spec(&small), Cfg::from_spec(&large)) else { continue };
            let Some(k) = classify("", &small, cs) else { continue };
            let k = G { name: format!("{} padded by {}", g.name, sizes[i]), spec: large, cfg: cl, lr0: k.lr0 && sizes[i] < 100, ..k };
            if pred(&k) {
                return Some(k);
            }
        }
        None
    });
    found.into_iter().flatten().collect()
}

/// Grammars with long chains, long rules, empty symbols or many alternatives.
pub fn at_limits(ctx: &Ctx, phase: &str, pred: impl Fn(&G) -> bool + Sync) -> Vec<G> {
    let found = par_map(gen::LIMITS * ctx.scale(2, 4), |i| {
        let mut rng = ctx.rng(&format!("{}-limits", phase), i as u64);
        for _ in 0..40 {
            let (what, spec) = gen::limits(&mut rng, i);
            let Some(c) = Cfg::from_spec(&spec) else { continue };
            if !c.reduced() {
                continue;
            }
            if let Some(g) = classify(&format!("{} {}", what, i), &spec, c) {
                if pred(&g) {
                    return Some(g);
                }
            }
        }
        None
    });
    let found: Vec<G> = found.into_iter().flatten().collect();
    ctx.count("grammars with long chains, long rules, empty symbols or many alternatives", found.len() as u64);
    found
}

pub fn to_seq(w: &[u16]) -> Seq {
    w.iter().map(|t| *t as i32).collect()
}

/// Inputs for one grammar: every sequence up to a length, sentences, and damaged sentences.
pub fn inputs(cfg: &Cfg, rng: &mut Rng, exhaustive: usize, sampled: usize, max_len: usize) -> Vec<Vec<u16>> {
    let mut set: BTreeSet<Vec<u16>> = BTreeSet::new();
    let nt = cfg.nt as u16;
    // all sequences whose proper prefix is viable (and one token beyond), breadth first
    let mut todo: std::collections::VecDeque<Vec<u16>> = std::collections::VecDeque::new();
    todo.push_back(vec![]);
    while let Some(w) = todo.pop_front() {
        if set.len() >= exhaustive {
            break;
        }
        let v = judge(cfg, &w);
        let dead = matches!(v, Verdict::Bad(i) if i < w.len());
        set.insert(w.clone());
        // tokens after the first offending one change nothing, but some are kept
        if w.len() < max_len && (!dead || rng.pct(8)) {
            let mut ts: Vec<u16> = (0..nt).collect();
            if nt > 40 {
                let mut e = Earley::new(cfg);
                w.iter().for_each(|t| {
                    e.push(*t);
                });
                let mut some: Vec<u16> = e.next_tokens().into_iter().collect();
                rng.shuffle(&mut some);
                some.truncate(60);
                some.extend((0..6).map(|_| rng.below(nt as usize) as u16));
                some.sort();
                some.dedup();
                ts = some;
            }
            if dead {
                ts = vec![rng.below(nt as usize) as u16];
            }
            for t in ts {
                let mut x = w.clone();
                x.push(t);
                todo.push_back(x);
            }
        }
    }
    for i in 0..sampled {
        let budget = 1 + rng.below(max_len.max(2));
        let mut w = cfg.sentence(rng, budget);
        // grammars with long rules have no short sentences
        if w.len() > 3 * max_len && (w.len() > 700 || i >= 24) {
            continue;
        }
        if i % 2 == 1 {
            match rng.below(5) {
                0 if !w.is_empty() => {
                    w.remove(rng.below(w.len()));
                }
                1 if !w.is_empty() => {
                    let k = rng.below(w.len());
                    w[k] = rng.below(nt as usize) as u16;
                }
                2 => {
                    let k = rng.below(w.len() + 1);
                    w.insert(k, rng.below(nt as usize) as u16);
                }
                3 if !w.is_empty() => {
                    w.truncate(rng.below(w.len()));
                }
                _ => {
                    let mut x = cfg.sentence(rng, 2);
                    w.append(&mut x);
                }
            }
        }
        set.insert(w);
    }
    set.into_iter().collect()
}

/// What a complete reading of the input has to give.
#[derive(Clone, Debug)]
pub struct Expect {
    pub verdict: Verdict,
    /// tokens that can follow the longest viable prefix (-1: the end)
    pub next: BTreeSet<i64>,
}

pub fn expect(cfg: &Cfg, w: &[u16]) -> Expect {
    let mut e = Earley::new(cfg);
    let mut bad = None;
    for (i, t) in w.iter().enumerate() {
        if !e.push(*t) {
            bad = Some(i);
            break;
        }
    }
    let mut next: BTreeSet<i64> = e.next_tokens().into_iter().map(|t| t as i64).collect();
    if e.accepting() {
        next.insert(-1);
    }
    let verdict = match bad {
        Some(i) => Verdict::Bad(i),
        None if e.accepting() => Verdict::Sentence,
        None => Verdict::Bad(w.len()),
    };
    Expect { verdict, next }
}

pub struct Plan {
    pub batch: Batch,
    /// per unit its grammar
    pub of: Vec<usize>,
    pub cases: Vec<Case>,
    pub words: Vec<Vec<u16>>,
    pub expects: Vec<Expect>,
}

/// The verdict on a case that did not end in an ordinary way, if it is one.
pub fn abnormal(r: &Res) -> Option<String> {
    match r {
        Res::Bad(s) => Some(s.clone()),
        _ => None,
    }
}

pub fn word_text(u: &Unit, w: &[u16]) -> String {
    if w.is_empty() {
        return "(no tokens)".into();
    }
    w.iter().map(|t| u.spec.toks[*t as usize].name.clone()).collect::<Vec<_>>().join(" ")
}

pub fn broken_units(ctx: &Ctx, b: &Batch, ran: &Ran) {
    for (u, e) in &ran.broken {
        let u = &b.units[*u];
        ctx.violation(
            &format!("compile/{:?}/{}", u.kind, u.alg.name()),
            "the generated code does not compile",
            format!("{}\n{}", u.describe(), e),
        );
    }
    ctx.count("parsers or lexers compiled and driven", (b.units.len() - ran.broken.len()) as u64);
    ctx.count("generations refused", b.refused.len() as u64);
}

pub fn detail(u: &Unit, w: &[u16], ex: &Expect, what: &str, obs: &str) -> String {
    format!(
        "{}\ninput tokens: {}\nprescribed: {:?}, possible next tokens {:?}\n{}\n{}\n",
        u.describe(),
        word_text(u, w),
        ex.verdict,
        ex.next,
        what,
        obs
    )
}

/// One grammar, one algorithm, its inputs.
pub struct Setup {
    pub want: usize,
    pub exhaustive: usize,
    pub sampled: usize,
    pub max_len: usize,
    /// tokens of the long sentences given to some of the parsers
    pub long: usize,
    /// tokens of the sentences that take a high stack, given to a few parsers
    pub deep: usize,
}

impl Setup {
    pub fn of(ctx: &Ctx) -> Setup {
        if ctx.thorough {
            Setup { want: 500, exhaustive: 3000, sampled: 900, max_len: 40, long: 2500, deep: 0 }
        } else {
            Setup { want: 180, exhaustive: 1000, sampled: 250, max_len: 24, long: 2500, deep: 0 }
        }
    }
}

pub fn lr_plan(ctx: &Ctx, name: &str, dir: &str, kind: Kind, st: &Setup) -> Plan {
    let mut gs = grammars(ctx, name, st.want, |g| g.lr1);
    let sizes: &[usize] = if ctx.thorough { &[280, 20, 60, 130, 300] } else { &[280, 20, 60] };
    gs.extend(padded(ctx, name, &gs, sizes, |g| g.lr1));
    gs.extend(at_limits(ctx, name, |g| g.lr1));
    let mut batch = Batch::new(ctx, dir, if kind == Kind::CppParser { San::AddressUndefined } else { San::None });
    let mut of = Vec::new();
    let mut todo = Vec::new();
    for (gi, g) in gs.iter().enumerate() {
        let mut algs = vec![];
        if g.lr0 {
            algs.push(A::Lr0);
        }
        if g.lalr {
            algs.push(A::Lalr);
        }
        algs.push(A::Lr1);
        for a in algs {
            let added = ctx.case(
                &format!("generate/{}/{}-{}/{}", dir, g.name, gi, a.name()),
                || g.spec.text(),
                || batch.add(&g.name, &g.spec, g.cfg.clone(), a, kind),
            );
            if let Some(Some(u)) = added {
                debug_assert!(u == of.len());
                of.push(gi);
                todo.push(u);
            }
        }
    }
    fill(ctx, name, batch, of, &gs, st)
}

/// A long sentence, and with it damaged ones whose verdict a deterministic reading gives.
fn long_words(ctx: &Ctx, name: &str, gi: usize, g: &G, long: usize, deep: bool) -> Vec<(Vec<u16>, Expect)> {
    if long == 0 || (gi % 2 == 0 && !deep) || !(g.lr1 || g.ll1) {
        return vec![];
    }
    let m = if g.lalr { g.cfg.lalr_machine(1500) } else { None };
    if deep && m.is_none() {
        return vec![];
    }
    let mut out = Vec::new();
    for k in 0..3u64 {
        let Some(w) = g.cfg.long_sentence(&mut ctx.rng(&format!("{}-{}{}", name, if deep { "deep" } else { "long" }, k), gi as u64), long) else { continue };
        let Some(m) = &m else {
            out.push((w, Expect { verdict: Verdict::Sentence, next: BTreeSet::new() }));
            break;
        };
        let mut rng = ctx.rng(&format!("{}-damage{}{}", name, deep, k), gi as u64);
        let Some((v, next, high)) = g.cfg.straight(m, &w) else { break };
        if v != Verdict::Sentence {
            ctx.violation("own reading", "self-check: the deterministic reading refuses a derived sentence", g.spec.text());
        }
        if deep && high < long / 4 {
            continue;
        }
        let mut cut = w.clone();
        cut.truncate(w.len() / 3 + rng.below(w.len() / 3));
        let mut wrong = w.clone();
        let at = w.len() / 3 + rng.below(w.len() / 3);
        wrong[at] = rng.below(g.cfg.nt) as u16;
        out.push((w, Expect { verdict: v, next }));
        for x in [cut, wrong] {
            if let Some((verdict, next, _)) = g.cfg.straight(m, &x) {
                out.push((x, Expect { verdict, next }));
            }
        }
        break;
    }
    out
}

pub fn fill(ctx: &Ctx, name: &str, batch: Batch, of: Vec<usize>, gs: &[G], st: &Setup) -> Plan {
    let words: Vec<Vec<(Vec<u16>, Expect)>> = par_map(gs.len(), |gi| {
        let mut rng = ctx.rng(&format!("{}-words", name), gi as u64);
        inputs(&gs[gi].cfg, &mut rng, st.exhaustive, st.sampled, st.max_len)
            .into_iter()
            .map(|w| {
                let e = expect(&gs[gi].cfg, &w);
                (w, e)
            })
            .chain(long_words(ctx, name, gi, &gs[gi], st.long, false))
            .collect()
    });
    let mut words = words;
    let mut deep = 0;
    for (gi, w) in par_map(if st.deep > 0 { gs.len() } else { 0 }, |gi| (gi, long_words(ctx, name, gi, &gs[gi], st.deep, true))) {
        if !w.is_empty() && deep < 30 {
            deep += w.len();
            words[gi].extend(w);
        }
    }
    ctx.count("inputs that take a stack of tens of thousands", deep as u64);
    ctx.count("long sentences", words.iter().flatten().filter(|w| st.long > 0 && w.0.len() > st.long / 2).count() as u64);
    let mut cases = Vec::new();
    let mut ws = Vec::new();
    let mut ex = Vec::new();
    for (u, gi) in of.iter().enumerate() {
        for (w, e) in &words[*gi] {
            cases.push(Case::Parse(u, vec![to_seq(w)]));
            ws.push(w.clone());
            ex.push(e.clone());
        }
    }
    Plan { batch, of, cases, words: ws, expects: ex }
}

/// Walk over the outcomes: `f(unit, word, expectation, observation)` returns what is wrong.
pub fn each(
    ctx: &Ctx,
    plan: &Plan,
    ran: &Ran,
    f: impl Fn(&Unit, &[u16], &Expect, &Obs) -> Option<(String, String)>,
) {
    let mut states: HashSet<u64> = HashSet::new();
    let mut n = 0;
    for (i, r) in ran.replies.iter().enumerate() {
        let u = &plan.batch.units[plan.cases[i].unit()];
        let (w, ex) = (&plan.words[i], &plan.expects[i]);
        match r {
            Reply::Skipped => continue,
            Reply::Crash(why) => {
                ctx.violation(
                    &format!("crash/{:?}/{}", u.kind, u.alg.name()),
                    "the generated parser crashes or does not end",
                    detail(u, w, ex, why, ""),
                );
            }
            Reply::Parses(v) => {
                n += 1;
                let o = &v[0];
                if let Res::Skipped = o.res {
                    continue;
                }
                ctx.count(if ex.verdict == Verdict::Sentence { "sentences parsed" } else { "non-sentences parsed" }, 1);
                ctx.count("callbacks observed", o.ev.len() as u64);
                states.insert(mix(&[u.alg as u64, hash_str(&u.grammar_text), hash_str(&format!("{:?}", o.ev)), hash_str(&format!("{:?}", o.res))]));
                if let Some((k, what)) = f(u, w, ex, o) {
                    ctx.violation(
                        &format!("{}/{:?}/{}", k, u.kind, u.alg.name()),
                        &what,
                        detail(u, w, ex, &what, &o.show()),
                    );
                }
                if i % 997 == 3 {
                    ctx.sample(|| {
                        format!(
                            "{} {} | {} | {:?} | events {:?} | {:?}",
                            u.name,
                            u.alg.name(),
                            word_text(u, w),
                            ex.verdict,
                            o.ev,
                            o.res
                        )
                    });
                }
            }
            Reply::Lexed(_) => {}
        }
    }
    ctx.evals(n);
    ctx.distinct_many(states);
    let mut per: BTreeMap<&str, u64> = BTreeMap::new();
    for u in &plan.batch.units {
        *per.entry(u.alg.name()).or_default() += 1;
    }
    for (k, v) in per {
        ctx.count(&format!("{} parsers", k), v);
    }
    let g: HashSet<u64> = plan.batch.units.iter().map(|u| hash_str(&u.grammar_text)).collect();
    ctx.count("distinct grammars", g.len() as u64);
}

pub fn verdict_of(r: &Res) -> Option<bool> {
    match r {
        Res::Ok => Some(true),
        Res::Unexpected(_) | Res::Throw(_) => Some(false),
        _ => None,
    }
}

pub fn check_language(ex: &Expect, o: &Obs) -> Option<(String, String)> {
    match (&o.res, ex.verdict) {
        (Res::Ok, Verdict::Sentence) => None,
        (Res::Unexpected(_) | Res::Throw(_), Verdict::Bad(_)) => None,
        (Res::Ok, _) => Some(("accepts".into(), "the parser accepts an input that is not a sentence".into())),
        (Res::Unexpected(_) | Res::Throw(_), _) => {
            Some(("rejects".into(), "the parser rejects a sentence of the grammar".into()))
        }
        (Res::Bad(s), _) => Some(("bad".into(), format!("the parser ends in neither success nor its error: {}", s))),
        (r, _) => Some(("odd".into(), format!("unexpected outcome {:?}", r))),
    }
}


const RULE_LR: &str = "curated and random grammars in the LR(1) class by our own canonical automaton; per grammar and algorithm whose class it is in, the generated parser is compiled and fed every token sequence with a viable proper prefix up to a bound, plus sampled sentences and damaged sentences; a case is distinct by grammar, algorithm, callbacks and outcome";

pub fn c12(ctx: &'static Ctx) {
    ctx.describe(
        RULE_LR,
        &["rustc compiles the emitted code faithfully", "our Earley recogniser on our own rewriting of the written productions decides membership"],
    );
    let mut st = Setup::of(ctx);
    st.long = 70_000;
    let plan = lr_plan(ctx, "c12", "c12", Kind::RustParser, &st);
    let ran = plan.batch.run(ctx, &plan.cases);
    broken_units(ctx, &plan.batch, &ran);
    each(ctx, &plan, &ran, |_, _, ex, o| check_language(ex, o));
}

fn prefix(ex: &Expect, w: &[u16]) -> usize {
    match ex.verdict {
        Verdict::Sentence => w.len(),
        Verdict::Bad(i) => i,
    }
}

pub fn c13(ctx: &'static Ctx) {
    ctx.describe(
        RULE_LR,
        &["callbacks are named after the rules in the order the generator derives them", "children of a named production are matched against its written pattern after dissolving made-up non-terminals"],
    );
    let st = Setup::of(ctx);
    let plan = lr_plan(ctx, "c13", "c13", Kind::RustParser, &st);
    let ran = plan.batch.run(ctx, &plan.cases);
    broken_units(ctx, &plan.batch, &ran);
    each(ctx, &plan, &ran, |u, w, ex, o| {
        let seq = to_seq(w);
        match &o.res {
            Res::Ok => {
                match replay(u, &o.ev, &seq, 0, true) {
                    Err(e) => return Some(("tree".into(), format!("the callbacks are no correct derivation: {}", e))),
                    Ok(n) => ctx.count("parse tree nodes rebuilt", n as u64),
                }
                if o.calls != w.len() + 1 {
                    return Some(("calls".into(), format!("{} calls of the token source for {} tokens", o.calls, w.len())));
                }
                None
            }
            Res::Unexpected(_) => {
                // reductions made on the way to an error may be wrong guesses, shifts may not
                let i = prefix(ex, w);
                if o.calls > i + 1 {
                    return Some(("calls".into(), "a token is taken after the rejected one".into()));
                }
                if o.calls != shifted(&o.ev) + 1 {
                    return Some(("calls".into(), "tokens taken and tokens shifted do not match".into()));
                }
                replay(u, &o.ev, &seq, 0, false)
                    .err()
                    .map(|e| ("partial".into(), format!("the callbacks before the error do not fit together: {}", e)))
            }
            Res::Bad(s) => Some(("bad".into(), s.clone())),
            _ => None,
        }
    });
}

/// Error position and expected tokens; `exact`: the list is prescribed.
fn check_error(u: &Unit, w: &[u16], ex: &Expect, o: &Obs) -> Option<(String, String)> {
    let i = match ex.verdict {
        Verdict::Bad(i) => i,
        Verdict::Sentence => return None,
    };
    let es = match &o.res {
        Res::Unexpected(v) => v,
        Res::Ok => return Some(("no error".into(), "no error is reported for an input that is not a sentence".into())),
        Res::Bad(s) => return Some(("bad".into(), s.clone())),
        _ => return None,
    };
    let want = w.get(i).map(|t| *t as i64).unwrap_or(-1);
    if es.is_empty() {
        return Some(("empty".into(), "the error reports no token".into()));
    }
    for e in es {
        if e.got != want {
            return Some(("got".into(), format!("the error reports token {} as unexpected, the first that cannot continue is {} (position {})", e.got, want, i)));
        }
        if u.alg == A::Glr && e.data != i.to_string() {
            return Some(("data".into(), format!("the error carries the data of token {} instead of {}", e.data, i)));
        }
        if e.expected.contains(&e.got) {
            return Some(("contains".into(), "the list of expected tokens contains the rejected token".into()));
        }
        if u.alg == A::Lr1 {
            let set: BTreeSet<i64> = e.expected.iter().copied().collect();
            if set != ex.next {
                return Some(("expected".into(), format!("expected tokens {:?} reported, {:?} can follow", set, ex.next)));
            }
        }
    }
    let s = shifted(&o.ev);
    if u.alg == A::Glr {
        if s > i {
            return Some(("shifts".into(), format!("{} tokens shown, the longest viable prefix has {}", s, i)));
        }
    } else if s != i {
        return Some(("shifts".into(), format!("{} tokens shifted, the longest viable prefix has {}", s, i)));
    }
    let name = if want < 0 { "EndOfFile".to_string() } else { rust_token(&u.spec.toks[want as usize].name) };
    if !o.shown.contains(&name) {
        return Some(("shown".into(), format!("the displayed error does not name {}: {}", name, o.shown)));
    }
    None
}

pub fn c14(ctx: &'static Ctx) {
    ctx.describe(
        RULE_LR,
        &["the longest viable prefix and its continuations come from our Earley recogniser (grammars are reduced, so its items are all useful)"],
    );
    let mut st = Setup::of(ctx);
    let plan = lr_plan(ctx, "c14", "c14", Kind::RustParser, &st);
    let ran = plan.batch.run(ctx, &plan.cases);
    broken_units(ctx, &plan.batch, &ran);
    each(ctx, &plan, &ran, |u, w, ex, o| check_error(u, w, ex, o));
    st.want /= 2;
    st.deep = 150_000;
    let plan = glr_plan(ctx, "c14g", &st);
    let ran = plan.batch.run(ctx, &plan.cases);
    broken_units(ctx, &plan.batch, &ran);
    each(ctx, &plan, &ran, |u, w, ex, o| check_error(u, w, ex, o));
}

pub fn glr_plan(ctx: &Ctx, name: &str, st: &Setup) -> Plan {
    // mostly grammars with conflicts, but others too
    let mut gs = grammars(ctx, &format!("{}-conflicts", name), st.want * 3 / 4, |g| g.tame && !g.lalr);
    gs.extend(grammars(ctx, &format!("{}-plain", name), st.want / 4, |g| g.tame && g.lalr));
    let sizes: &[usize] = if ctx.thorough { &[280, 20, 60, 130] } else { &[280, 20] };
    gs.extend(padded(ctx, name, &gs, sizes, |g| g.tame));
    gs.extend(at_limits(ctx, name, |g| g.tame));
    let mut batch = Batch::new(ctx, name, San::None);
    let mut of = Vec::new();
    for (gi, g) in gs.iter().enumerate() {
        let added = ctx.case(
            &format!("generate/{}/{}-{}", name, g.name, gi),
            || g.spec.text(),
            || batch.add(&g.name, &g.spec, g.cfg.clone(), A::Glr, Kind::RustParser),
        );
        if let Some(Some(_)) = added {
            of.push(gi);
        }
    }
    let mut plan = fill(ctx, name, batch, of, &gs, st);
    // leave out inputs on which a parser without sharing needs too many stacks
    let cap = 400;
    let keep: Vec<Vec<bool>> = {
        let machines: Vec<Option<Machine>> = par_map(gs.len(), |i| gs[i].cfg.lalr_machine(1500));
        let mut by: Vec<Vec<usize>> = vec![Vec::new(); plan.of.len()];
        for (i, c) in plan.cases.iter().enumerate() {
            by[c.unit()].push(i);
        }
        par_map(plan.of.len(), |u| {
            let gi = plan.of[u];
            by[u].iter().map(|i| match &machines[gi] {
                _ if plan.words[*i].len() > 2000 && gs[gi].lalr => true,
                Some(m) => gs[gi].cfg.width(m, &plan.words[*i], cap) <= cap,
                None => false,
            }).collect()
        })
    };
    let mut pos = vec![0usize; plan.of.len()];
    let mut flags = Vec::new();
    for c in &plan.cases {
        let u = c.unit();
        flags.push(keep[u][pos[u]]);
        pos[u] += 1;
    }
    ctx.count("inputs left out (too many parses)", flags.iter().filter(|f| !**f).count() as u64);
    let mut it = flags.iter();
    plan.cases.retain(|_| *it.next().unwrap());
    let mut it = flags.iter();
    plan.words.retain(|_| *it.next().unwrap());
    let mut it = flags.iter();
    plan.expects.retain(|_| *it.next().unwrap());
    plan
}

const RULE_GLR: &str = "curated and random reduced grammars without cyclic or hidden left-recursive derivations, three quarters of them outside LALR (ambiguous or needing more lookahead); every token sequence with a viable proper prefix up to a bound plus sampled sentences and damaged sentences, leaving out inputs on which more than 400 stacks live at once; a case is distinct by grammar, callbacks and outcome";

pub fn c15(ctx: &'static Ctx) {
    ctx.describe(RULE_GLR, &["our Earley recogniser decides membership"]);
    let mut st = Setup::of(ctx);
    st.deep = 150_000;
    let plan = glr_plan(ctx, "c15", &st);
    let ran = plan.batch.run(ctx, &plan.cases);
    broken_units(ctx, &plan.batch, &ran);
    each(ctx, &plan, &ran, |_, _, ex, o| check_language(ex, o));
}

/// Symbols on the stack after the callbacks, and the tokens they cover.
fn stack_after(info: &Info, ev: &[Ev]) -> Option<Vec<S>> {
    let mut st: Vec<S> = Vec::new();
    for e in ev {
        match e {
            Ev::Shift(t, _) => st.push(S::T(*t as u16)),
            Ev::Reduce(r) => {
                let r = &info.rules[*r];
                let n = st.len().checked_sub(r.rhs.len())?;
                st.truncate(n);
                st.push(S::N(r.lhs));
            }
            _ => return None,
        }
    }
    Some(st)
}

pub fn c16(ctx: &'static Ctx) {
    ctx.describe(
        RULE_GLR,
        &["callbacks delivered before a syntax error must form a stack from which the rest of the longest viable prefix can be read (Earley over symbols)"],
    );
    let st = Setup::of(ctx);
    let plan = glr_plan(ctx, "c16", &st);
    let ran = plan.batch.run(ctx, &plan.cases);
    broken_units(ctx, &plan.batch, &ran);
    let cfgs: Vec<Cfg> = plan.batch.units.iter().map(|u| u.info.cfg(u.spec.toks.len())).collect();
    each(ctx, &plan, &ran, |u, w, ex, o| {
        let seq = to_seq(w);
        match &o.res {
            Res::Ok => match replay(u, &o.ev, &seq, 0, true) {
                Err(e) => Some(("tree".into(), format!("the callbacks are no correct derivation: {}", e))),
                Ok(n) => {
                    ctx.count("parse tree nodes rebuilt", n as u64);
                    if o.calls != w.len() + 1 {
                        return Some(("calls".into(), "the token source is not asked once per token".into()));
                    }
                    None
                }
            },
            Res::Unexpected(_) => {
                let i = prefix(ex, w);
                if let Err(e) = replay(u, &o.ev, &seq, 0, false) {
                    return Some(("partial".into(), format!("the callbacks before the error do not fit together: {}", e)));
                }
                let s = shifted(&o.ev);
                if s > i {
                    return Some(("partial".into(), "tokens beyond the longest viable prefix are shown".into()));
                }
                let stack = stack_after(&u.info, &o.ev)?;
                let ui = plan.batch.units.iter().position(|x| x.id == u.id).unwrap();
                let mut e = Earley::new(&cfgs[ui]);
                let ok = stack.iter().all(|x| e.push_sym(*x)) && w[s..i].iter().all(|t| e.push(*t));
                if s > 0 {
                    ctx.count("partial deliveries before an error judged", 1);
                }
                if !ok {
                    return Some(("inconsistent".into(), format!("the callbacks delivered before the error ({:?}) belong to a reading that the input rules out", stack)));
                }
                None
            }
            Res::Bad(s) => Some(("bad".into(), s.clone())),
            _ => None,
        }
    });
}

pub fn c17(ctx: &'static Ctx) {
    ctx.describe(
        "curated and random grammars that are LL(1) by our own FIRST/FOLLOW sets; the generated C++ parser is compiled with AddressSanitizer and UBSan and fed every token sequence with a viable proper prefix up to a bound, plus sampled sentences and damaged sentences; a case is distinct by grammar, callbacks and outcome",
        &["clang++ compiles the emitted code faithfully", "our Earley recogniser decides membership"],
    );
    let mut st = Setup::of(ctx);
    st.want = ctx.scale(70, 300);
    let mut gs = grammars(ctx, "c17", st.want, |g| g.ll1);
    let sizes: &[usize] = if ctx.thorough { &[280, 20, 60, 130, 300] } else { &[280, 20, 60] };
    gs.extend(padded(ctx, "c17", &gs, sizes, |g| g.ll1));
    gs.extend(at_limits(ctx, "c17", |g| g.ll1));
    let mut batch = Batch::new(ctx, "c17", San::AddressUndefined);
    let mut of = Vec::new();
    for (gi, g) in gs.iter().enumerate() {
        let added = ctx.case(
            &format!("generate/c17/{}-{}", g.name, gi),
            || g.spec.text(),
            || batch.add(&g.name, &g.spec, g.cfg.clone(), A::Ll1, Kind::CppParser),
        );
        if let Some(Some(_)) = added {
            of.push(gi);
        }
    }
    let plan = fill(ctx, "c17", batch, of, &gs, &st);
    let ran = plan.batch.run(ctx, &plan.cases);
    broken_units(ctx, &plan.batch, &ran);
    each(ctx, &plan, &ran, |u, w, ex, o| {
        if let Some(x) = check_language(ex, o) {
            return Some(x);
        }
        let seq = to_seq(w);
        match ex.verdict {
            Verdict::Sentence => match ll_tree(u, &o.ev, &seq, 0, true) {
                Err(e) => Some(("tree".into(), format!("the callbacks are no parse tree of the input: {}", e))),
                Ok(n) => {
                    ctx.count("parse tree nodes rebuilt", n as u64);
                    None
                }
            },
            Verdict::Bad(i) => {
                if shifted(&o.ev) > i {
                    return Some(("beyond".into(), "a token beyond the longest viable prefix is passed on".into()));
                }
                ll_tree(u, &o.ev, &seq, 0, false)
                    .err()
                    .map(|e| ("partial".into(), format!("the callbacks before the error do not fit together: {}", e)))
            }
        }
    });
}

pub fn c18(ctx: &'static Ctx) {
    ctx.describe(
        RULE_LR,
        &["the C++ parsers run under AddressSanitizer and UBSan", "callback sequences are compared literally with those of the Rust parser generated from the same grammar"],
    );
    let mut st = Setup::of(ctx);
    st.want = ctx.scale(44, 160);
    st.long = 70_000;
    let cpp = lr_plan(ctx, "c18", "c18cpp", Kind::CppParser, &st);
    let rust = lr_plan(ctx, "c18", "c18rust", Kind::RustParser, &st);
    let rc = cpp.batch.run(ctx, &cpp.cases);
    let rr = rust.batch.run(ctx, &rust.cases);
    broken_units(ctx, &cpp.batch, &rc);
    let mut other: HashMap<(u64, u8, Vec<u16>), &Obs> = HashMap::new();
    for (i, r) in rr.replies.iter().enumerate() {
        if let Reply::Parses(v) = r {
            let u = &rust.batch.units[rust.cases[i].unit()];
            other.insert((hash_str(&u.grammar_text), u.alg as u8, rust.words[i].clone()), &v[0]);
        }
    }
    each(ctx, &cpp, &rc, |u, w, ex, o| {
        if let Some(x) = check_language(ex, o) {
            return Some(x);
        }
        if let (Res::Throw(text), Verdict::Bad(i)) = (&o.res, ex.verdict) {
            let name = w.get(i).map(|t| u.spec.toks[*t as usize].name.clone()).unwrap_or("<EOF>".into());
            let named = text.split('\'').nth(1).unwrap_or("").to_string();
            if named != name {
                return Some(("named".into(), format!("the exception names '{}', the first token that cannot continue is '{}': {}", named, name, text)));
            }
        }
        if let Some(r) = other.get(&(hash_str(&u.grammar_text), u.alg as u8, w.to_vec())) {
            ctx.count("callback sequences compared with the Rust parser", 1);
            if matches!(r.res, Res::Ok | Res::Unexpected(_)) && r.ev != o.ev {
                return Some(("differs".into(), format!("the Rust parser's visitor receives {:?}", r.ev)));
            }
        }
        None
    });
}

fn rebase(o: &Obs, base: i64) -> Obs {
    let fix = |d: &String| d.parse::<i64>().map(|x| (x - base).to_string()).unwrap_or(d.clone());
    let mut o = o.clone();
    // the displayed error carries the token data of the run
    o.shown.clear();
    for e in o.ev.iter_mut() {
        if let Ev::Shift(_, d) = e {
            *d = fix(d);
        }
    }
    match &mut o.res {
        Res::Unexpected(v) => v.iter_mut().for_each(|x| x.data = fix(&x.data)),
        Res::LexerError(d) => *d = fix(d),
        _ => {}
    }
    o
}

/// Batches of every kind of parser, with a few grammars each.
fn mixed(ctx: &Ctx, name: &str, want: usize, san: San) -> (Batch, Vec<usize>, Vec<G>) {
    let mut gs = grammars(ctx, &format!("{}-lr", name), want, |g| g.lr1);
    let nlr = gs.len();
    gs.extend(grammars(ctx, &format!("{}-glr", name), want, |g| g.tame && !g.lr1));
    let nglr = gs.len();
    gs.extend(grammars(ctx, &format!("{}-ll", name), want / 2, |g| g.ll1));
    let mut batch = Batch::new(ctx, name, san);
    let mut of = Vec::new();
    let rust = san != San::Thread;
    for (gi, g) in gs.iter().enumerate() {
        let mut todo = Vec::new();
        let a = if g.lr0 && gi % 3 == 0 { A::Lr0 } else if g.lalr && gi % 3 == 1 { A::Lalr } else { A::Lr1 };
        if gi < nlr {
            if rust {
                todo.push((a, Kind::RustParser));
                if gi % 4 == 0 {
                    todo.push((A::Glr, Kind::RustParser));
                }
            }
            todo.push((a, Kind::CppParser));
        } else if gi < nglr {
            if rust {
                todo.push((A::Glr, Kind::RustParser));
            }
        } else {
            todo.push((A::Ll1, Kind::CppParser));
        }
        for (a, k) in todo {
            if a == A::Glr && !g.tame {
                continue;
            }
            let added = ctx.case(
                &format!("generate/{}/{}-{}/{}/{:?}", name, g.name, gi, a.name(), k),
                || g.spec.text(),
                || batch.add(&g.name, &g.spec, g.cfg.clone(), a, k),
            );
            if let Some(Some(_)) = added {
                of.push(gi);
            }
        }
    }
    (batch, of, gs)
}

fn narrow(g: &G, m: &Option<Machine>, w: &[u16]) -> bool {
    match m {
        Some(m) => g.cfg.width(m, w, 200) <= 200,
        None => w.len() < 4,
    }
}

pub fn c24(ctx: &'static Ctx) {
    ctx.describe(
        "parsers of every kind (Rust LR and GLR, C++ LR and LL); one object parses random mixtures of sentences, broken inputs and (GLR, C++) token source errors, and each parse must equal the parse of the same input by a fresh object; a parse is run while other parsers of the same grammar complete whole parses inside its token calls; four threads parse at once (C++ under ThreadSanitizer); distinct by grammar, algorithm and history",
        &["a fresh object's behaviour is the reference here; its correctness is judged by C12 to C18"],
    );
    for (name, san) in [("c24", San::AddressUndefined), ("c24t", San::Thread)] {
        let want = if san == San::Thread { ctx.scale(6, 30) } else { ctx.scale(24, 120) };
        let (batch, of, gs) = mixed(ctx, name, want, san);
        let machines: Vec<Option<Machine>> = par_map(gs.len(), |i| gs[i].cfg.lalr_machine(1500));
        let pools: Vec<Vec<Vec<u16>>> = par_map(gs.len(), |i| {
            let mut rng = ctx.rng(&format!("{}-pool", name), i as u64);
            inputs(&gs[i].cfg, &mut rng, 40, 40, 14)
                .into_iter()
                .filter(|w| narrow(&gs[i], &machines[i], w))
                .collect()
        });
        let mut cases = Vec::new();
        // per case: the fresh cases it must equal, in order
        let mut refs: Vec<Vec<usize>> = Vec::new();
        for (u, gi) in of.iter().enumerate() {
            let unit = &batch.units[u];
            let mut rng = ctx.rng(&format!("{}-hist", name), u as u64);
            let pool = &pools[*gi];
            let good: Vec<&Vec<u16>> = pool.iter().filter(|w| judge(&gs[*gi].cfg, w) == Verdict::Sentence).collect();
            if good.is_empty() || pool.is_empty() {
                continue;
            }
            let errors = unit.alg == A::Glr || unit.kind == Kind::CppParser;
            let mut fresh: HashMap<Seq, usize> = HashMap::new();
            let mut some = |rng: &mut Rng| -> Seq {
                let mut s = if rng.pct(45) { to_seq(rng.pick(&good)) } else { to_seq(rng.pick(pool)) };
                if errors && rng.pct(20) {
                    let k = rng.below(s.len() + 1);
                    s.truncate(k);
                    s.push(-2);
                }
                s
            };
            let rounds = if san == San::Thread { 4 } else { ctx.scale(40, 160) };
            for round in 0..rounds {
                let n = rng.range(2, 6);
                let seqs: Vec<Seq> = (0..n).map(|_| some(&mut rng)).collect();
                let mut rs = Vec::new();
                for s in &seqs {
                    let k = *fresh.entry(s.clone()).or_insert_with(|| {
                        cases.push(Case::Parse(u, vec![s.clone()]));
                        refs.push(vec![]);
                        cases.len() - 1
                    });
                    rs.push(k);
                }
                if san == San::Thread || round % 10 == 9 {
                    cases.push(Case::Threads(u, 4, seqs));
                    refs.push((0..4).flat_map(|_| rs.clone()).collect());
                } else if round % 4 == 3 {
                    cases.push(Case::Nest(u, seqs[0].clone(), u, seqs[1].clone()));
                    refs.push(vec![rs[0], rs[1]]);
                } else {
                    cases.push(Case::Parse(u, seqs));
                    refs.push(rs);
                }
            }
        }
        let ran = batch.run(ctx, &cases);
        broken_units(ctx, &batch, &ran);
        for (i, r) in ran.replies.iter().enumerate() {
            let u = &batch.units[cases[i].unit()];
            match r {
                Reply::Crash(why) => ctx.violation(
                    &format!("crash/{:?}/{}", u.kind, u.alg.name()),
                    "the generated parser crashes or does not end",
                    format!("{}\ncase {:?}\n{}", u.describe(), cases[i], why),
                ),
                Reply::Parses(v) if !refs[i].is_empty() => {
                    ctx.evals(1);
                    ctx.count(
                        match &cases[i] {
                            Case::Parse(..) => "histories of one object",
                            Case::Nest(..) => "interleaved parses",
                            _ => "concurrent groups of parses",
                        },
                        1,
                    );
                    ctx.distinct(mix(&[u.alg as u64, u.kind as u64, hash_str(&u.grammar_text), hash_str(&format!("{:?}", cases[i]))]));
                    if v.len() != refs[i].len() {
                        ctx.violation(
                            &format!("count/{:?}/{}", u.kind, u.alg.name()),
                            "repeated inner parses differ from each other",
                            format!("{}\ncase {:?}\n{:?}", u.describe(), cases[i], v),
                        );
                        continue;
                    }
                    for (k, o) in v.iter().enumerate() {
                        let f = match &ran.replies[refs[i][k]] {
                            Reply::Parses(f) => &f[0],
                            _ => continue,
                        };
                        let base = match &cases[i] {
                            Case::Parse(..) => 1000 * k as i64,
                            _ => 0,
                        };
                        ctx.count("parses compared with a fresh object", 1);
                        let o = rebase(o, base);
                        let f = &rebase(f, 0);
                        if o != *f {
                            ctx.violation(
                                &format!("differs/{:?}/{}", u.kind, u.alg.name()),
                                "a parse depends on what happened before or beside it",
                                format!(
                                    "{}\ncase {:?}\nparse {} of it: {}\nfresh object: {}",
                                    u.describe(),
                                    cases[i],
                                    k,
                                    o.show(),
                                    f.show()
                                ),
                            );
                        }
                    }
                    if i % 211 == 7 {
                        ctx.sample(|| format!("{} {} {:?}: {:?}", u.name, u.alg.name(), u.kind, cases[i]));
                    }
                }
                Reply::Parses(v) => {
                    // a fresh parse reads its sequence and stops at the end of file
                    let o = &v[0];
                    if let (Case::Parse(_, s), Res::Ok) = (&cases[i], &o.res) {
                        if o.calls != s[0].len() + 1 {
                            ctx.violation(
                                &format!("calls/{:?}/{}", u.kind, u.alg.name()),
                                "a parse takes more or fewer tokens than its own sequence has",
                                format!("{}\ncase {:?}\n{}", u.describe(), cases[i], o.show()),
                            );
                        }
                    }
                }
                _ => {}
            }
        }
    }
}

pub fn c25(ctx: &'static Ctx) {
    ctx.level("fault_enumeration");
    ctx.describe(
        "Rust GLR parsers whose token source fails at every position of every input, and C++ LR and LL parsers that are handed the error token there; distinct by grammar, input and position",
        &["our Earley recogniser tells whether a syntax error comes first"],
    );
    let (batch, of, gs) = mixed(ctx, "c25", ctx.scale(40, 160), San::AddressUndefined);
    let machines: Vec<Option<Machine>> = par_map(gs.len(), |i| gs[i].cfg.lalr_machine(1500));
    let mut cases = Vec::new();
    let mut meta: Vec<(Vec<u16>, usize)> = Vec::new();
    for (u, gi) in of.iter().enumerate() {
        let unit = &batch.units[u];
        if unit.kind == Kind::RustParser && unit.alg != A::Glr {
            continue;
        }
        let mut rng = ctx.rng("c25-words", u as u64);
        let words = inputs(&gs[*gi].cfg, &mut rng, ctx.scale(60, 250), ctx.scale(30, 120), 16);
        let mut seen = HashSet::new();
        for w in words {
            if !narrow(&gs[*gi], &machines[*gi], &w) {
                continue;
            }
            for p in 0..=w.len() {
                let mut s = to_seq(&w[..p]);
                s.push(-2);
                // what follows must never be asked for
                s.extend(to_seq(&w[p..]));
                if seen.insert(s.clone()) {
                    cases.push(Case::Parse(u, vec![s]));
                    meta.push((w.clone(), p));
                }
            }
        }
    }
    let ran = batch.run(ctx, &cases);
    broken_units(ctx, &batch, &ran);
    let cfgs: Vec<Cfg> = batch.units.iter().map(|u| u.info.cfg(u.spec.toks.len())).collect();
    let vs = par_map(cases.len(), |i| {
        let u = &batch.units[cases[i].unit()];
        let (w, p) = &meta[i];
        let o = match &ran.replies[i] {
            Reply::Parses(v) => &v[0],
            Reply::Crash(why) => return Some(("crash".to_string(), why.clone())),
            _ => return None,
        };
        let first_bad = match judge(&u.cfg, &w[..*p]) {
            Verdict::Bad(b) if b < *p => Some(b),
            _ => None,
        };
        let viable = first_bad.unwrap_or(*p);
        let seq = to_seq(w);
        let bad = |k: &str, t: &str| Some((k.to_string(), t.to_string()));
        if o.ev.iter().any(|e| matches!(e, Ev::Shift(-2, _))) {
            return bad("delivered", "the error token is shown to the visitor");
        }
        if shifted(&o.ev) > viable {
            return bad("beyond", "tokens beyond the error are shown to the visitor");
        }
        if u.alg == A::Glr {
            match (&o.res, first_bad) {
                (Res::LexerError(d), None) => {
                    if *d != p.to_string() {
                        return bad("other", "a different error than the token source's is returned");
                    }
                    if o.calls != p + 1 {
                        return bad("calls", "further tokens are taken after the error");
                    }
                }
                (Res::Unexpected(_), Some(_)) => {}
                (r, _) => return Some(("outcome".into(), format!("the outcome is {:?}", r))),
            }
            if let Err(e) = replay(u, &o.ev, &seq, 0, false) {
                return Some(("partial".into(), format!("the callbacks before the error do not fit together: {}", e)));
            }
            if let Some(st) = stack_after(&u.info, &o.ev) {
                let mut e = Earley::new(&cfgs[cases[i].unit()]);
                let s = shifted(&o.ev);
                if !(st.iter().all(|x| e.push_sym(*x)) && w[s..viable].iter().all(|t| e.push(*t))) {
                    return bad("inconsistent", "the callbacks contradict the tokens delivered before the error");
                }
            }
            None
        } else {
            match &o.res {
                Res::Throw(_) => {}
                r => return Some(("outcome".into(), format!("the outcome is {:?} instead of a std::runtime_error", r))),
            }
            let r = if u.alg == A::Ll1 { ll_tree(u, &o.ev, &seq, 0, false) } else { replay(u, &o.ev, &seq, 0, false) };
            r.err().map(|e| ("partial".to_string(), format!("the callbacks before the error do not fit together: {}", e)))
        }
    });
    for (i, v) in vs.into_iter().enumerate() {
        let u = &batch.units[cases[i].unit()];
        if !matches!(ran.replies[i], Reply::Skipped) {
            ctx.evals(1);
            ctx.count(&format!("{:?} {} parses with an error injected", u.kind, u.alg.name()), 1);
            ctx.distinct(mix(&[hash_str(&u.grammar_text), u.kind as u64, u.alg as u64, hash_str(&format!("{:?}", cases[i]))]));
        }
        if i % 499 == 5 {
            ctx.sample(|| format!("{} {} {:?} error at {}: {:?}", u.name, u.alg.name(), u.kind, meta[i].1, ran.replies[i]));
        }
        if let Some((k, what)) = v {
            ctx.violation(
                &format!("{}/{:?}/{}", k, u.kind, u.alg.name()),
                &what,
                format!("{}\ninput {}\nerror in place of token {}\n{:?}", u.describe(), word_text(u, &meta[i].0), meta[i].1, ran.replies[i]),
            );
        }
    }
}
