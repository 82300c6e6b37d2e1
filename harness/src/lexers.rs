//! Checks on generated Rust and C++ lexers.
use crate::cfg::Cfg;
use crate::ctx::Ctx;
use crate::e2e::*;
use crate::gen;
use crate::glue::*;
use crate::lexspec::*;
use crate::model::*;
use crate::rx::*;
use crate::util::*;
use std::collections::{BTreeSet, HashMap, VecDeque};

fn set(t: &str, v: &[(char, char)], neg: bool) -> Rx {
    let s = Set::new(v.iter().map(|(a, b)| (*a as u32, *b as u32)).collect());
    Rx::Set(if neg { s.negate() } else { s }, t.to_string())
}

fn tok(name: &str, prec: Option<u32>, pat: TokPat) -> Tok {
    Tok { name: name.into(), prec, pat }
}

/// Token sets as they occur in practice and some that are awkward on purpose.
pub fn curated_toks() -> Vec<(&'static str, Vec<Tok>)> {
    let lit = |n: &str, t: &str| tok(n, None, TokPat::Lit(t.into()));
    let re = |n: &str, r: Rx| tok(n, None, TokPat::Re(r));
    let rep = |r: Rx, a: u32, b: Option<u32>| Rx::Rep(Box::new(r), a, b);
    let digit = || set("[0-9]", &[('0', '9')], false);
    let ident = || {
        Rx::Cat(vec![
            set("[a-zA-Z_]", &[('a', 'z'), ('A', 'Z'), ('_', '_')], false),
            rep(set("[a-zA-Z0-9_]", &[('a', 'z'), ('A', 'Z'), ('0', '9'), ('_', '_')], false), 0, None),
        ])
    };
    let ws = || rep(set("[ \\t\\n]", &[(' ', ' '), ('\t', '\t'), ('\n', '\n')], false), 1, None);
    vec![
        (
            "keywords",
            vec![
                lit("KW_IF", "if"),
                lit("KW_ELSE", "else"),
                lit("KW_ELIF", "elif"),
                re("IDENT", ident()),
                lit("ASSIGN", "="),
                lit("EQ", "=="),
                lit("ARROW", "==>"),
                re("WS", ws()),
            ],
        ),
        (
            "numbers",
            vec![
                tok("INT", Some(9), TokPat::Re(rep(digit(), 1, None))),
                re("FLOAT", Rx::Cat(vec![rep(digit(), 1, None), Rx::ch('.'), rep(digit(), 1, None)])),
                re(
                    "EXPO",
                    Rx::Cat(vec![
                        rep(digit(), 1, None),
                        set("[eE]", &[('e', 'e'), ('E', 'E')], false),
                        rep(set("[+\\-]", &[('+', '+'), ('-', '-')], false), 0, Some(1)),
                        rep(digit(), 1, None),
                    ]),
                ),
                re("HEX", Rx::Cat(vec![Rx::lit("0x"), rep(set("[0-9a-f]", &[('0', '9'), ('a', 'f')], false), 1, Some(4))])),
                lit("DOT", "."),
                lit("RANGE", ".."),
            ],
        ),
        (
            "text",
            vec![
                re(
                    "STRING",
                    Rx::Cat(vec![
                        Rx::ch('"'),
                        rep(
                            Rx::Alt(vec![
                                set("[^\"\\\\\\n]", &[('"', '"'), ('\\', '\\'), ('\n', '\n')], true),
                                Rx::Cat(vec![Rx::ch('\\'), set(".", &[('\n', '\n')], true)]),
                            ]),
                            0,
                            None,
                        ),
                        Rx::ch('"'),
                    ]),
                ),
                re("COMMENT", Rx::Cat(vec![Rx::lit("//"), rep(set("[^\\n]", &[('\n', '\n')], true), 0, None)])),
                lit("SLASH", "/"),
                re("WS", ws()),
                re("WORD", rep(set("[\u{e0}-\u{ff}a-z]", &[('\u{e0}', '\u{ff}'), ('a', 'z')], false), 1, None)),
            ],
        ),
        (
            "unicode",
            vec![
                re("GREEK", rep(set("[\u{3b1}-\u{3c9}]", &[('\u{3b1}', '\u{3c9}')], false), 1, Some(3))),
                re("CJK", set("[\u{4e00}-\u{9fff}]", &[('\u{4e00}', '\u{9fff}')], false)),
                re("EMOJI", Rx::Cat(vec![set("[\u{1f300}-\u{1f64f}]", &[('\u{1f300}', '\u{1f64f}')], false), rep(Rx::ch('\u{fe0f}'), 0, Some(1))])),
                lit("SHARP", "\u{df}"),
                lit("LAST", "\u{10ffff}"),
                lit("EDGE", "\u{7f}\u{80}\u{7ff}\u{800}\u{ffff}\u{10000}"),
                tok("ASCII", Some(0), TokPat::Re(set("[a-z]", &[('a', 'z')], false))),
            ],
        ),
        (
            "characters_not_bytes",
            vec![
                lit("EURO", "\u{20ac}"),
                lit("CAFE", "caf\u{e9}"),
                tok("WORD", Some(9), TokPat::Re(rep(set("[a-z\u{e0}-\u{ff}]", &[('a', 'z'), ('\u{e0}', '\u{ff}')], false), 1, None))),
                tok("SIGN", Some(3), TokPat::Re(set("[\u{a3}\u{20a0}-\u{20bf}]", &[('\u{a3}', '\u{a3}'), ('\u{20a0}', '\u{20bf}')], false))),
                lit("CLEF", "\u{1d11e}\u{1d122}"),
                tok("MUSIC", Some(5), TokPat::Re(rep(set("[\u{1d100}-\u{1d1ff}]", &[('\u{1d100}', '\u{1d1ff}')], false), 1, None))),
            ],
        ),
        (
            "anything",
            vec![
                lit("AB", "ab"),
                lit("ABABC", "ababc"),
                tok("ANY", Some(0), TokPat::Re(set(".", &[('\n', '\n')], true))),
            ],
        ),
        (
            "backtrack_gap",
            vec![
                lit("A", "a"),
                lit("ABCD", "abcd"),
                lit("B", "b"),
                lit("C", "c"),
                re("ALONG", Rx::Cat(vec![rep(Rx::ch('a'), 2, Some(4)), Rx::ch('z')])),
            ],
        ),
        (
            "precedence_order",
            vec![
                tok("LOW", Some(0), TokPat::Lit("let".into())),
                tok("HIGH", Some(5), TokPat::Re(rep(set("[a-z]", &[('a', 'z')], false), 1, Some(5)))),
                tok("TOP", Some(6), TokPat::Re(Rx::lit("lea"))),
                re("LONG", rep(set("[a-z]", &[('a', 'z')], false), 4, None)),
            ],
        ),
        (
            "comments",
            vec![
                re(
                    "COMMENT",
                    Rx::Cat(vec![
                        Rx::lit("/*"),
                        rep(
                            Rx::Alt(vec![
                                set("[^*]", &[('*', '*')], true),
                                Rx::Cat(vec![rep(Rx::ch('*'), 1, None), set("[^*\\/]", &[('*', '*'), ('/', '/')], true)]),
                            ]),
                            0,
                            None,
                        ),
                        rep(Rx::ch('*'), 1, None),
                        Rx::ch('/'),
                    ]),
                ),
                lit("SLASH", "/"),
                lit("STAR", "*"),
                lit("POW", "**"),
                re("ID", ident()),
            ],
        ),
    ]
}

pub fn lexer_spec(toks: Vec<Tok>) -> (Spec, Cfg) {
    let s = Spec {
        prods: vec![Prod { name: "s".into(), tag: None, pat: r(&toks[0].name) }],
        toks,
        entry: "s".into(),
    };
    let c = Cfg::from_spec(&s).unwrap();
    (s, c)
}

/// Token sets without precedence ties whose tokens are not empty.
pub fn tok_sets(ctx: &Ctx, phase: &str, want: usize) -> Vec<(String, Vec<Tok>, LexSpec)> {
    let mut out: Vec<(String, Vec<Tok>, LexSpec)> = Vec::new();
    let usable = |t: &Vec<Tok>| -> Option<LexSpec> {
        let l = LexSpec::new(t, 200)?;
        match l.ties(1500) {
            Some(v) if v.is_empty() => Some(l),
            _ => None,
        }
    };
    for (n, t) in curated_toks() {
        if let Some(l) = usable(&t) {
            out.push((n.to_string(), t, l));
        }
    }
    for (i, n) in [270, 40].into_iter().enumerate() {
        let t = gen::many_toks(&mut ctx.rng(&format!("{}-many", phase), i as u64), n);
        // keywords are told apart by their default precedences: no ties
        if let Some(l) = LexSpec::new(&t, 200) {
            out.insert(0, (format!("{} keywords", n), t, l));
        }
    }
    for (i, n) in [330, 150].into_iter().enumerate() {
        let t = gen::many_chars(&mut ctx.rng(&format!("{}-chars", phase), i as u64), n);
        if let Some(l) = usable(&t) {
            out.insert(0, (format!("{} scattered characters", n), t, l));
            ctx.count("token sets over hundreds of scattered characters", 1);
        }
    }
    let mut idx = 0u64;
    while out.len() < want && idx < 20000 {
        let found = par_map(64, |i| {
            let mut rng = ctx.rng(phase, idx + i as u64);
            let e = *rng.pick(&[0, 30, 70]);
            let t = if rng.pct(35) { gen::overlapping_toks(&mut rng) } else { gen::random_toks(&mut rng, e) };
            usable(&t).map(|l| (t, l))
        });
        for (i, f) in found.into_iter().enumerate() {
            if let Some((t, l)) = f {
                if out.len() < want {
                    out.push((format!("random{}", idx + i as u64), t, l));
                }
            }
        }
        idx += 64;
    }
    out
}

fn class_char(rng: &mut Rng, l: &LexSpec, c: usize, end: u8) -> Option<char> {
    let (lo, hi) = l.classes[c];
    let lo = if lo == 0 { 1 } else { lo };
    if hi < lo {
        return None;
    }
    let v = match end {
        0 => lo,
        1 => hi,
        _ => lo + rng.below((hi - lo + 1) as usize) as u32,
    };
    char::from_u32(v).or_else(|| (v..=hi).find_map(char::from_u32)).or_else(|| (lo..=v).rev().find_map(char::from_u32))
}

/// Texts that walk every transition (live and dead) of the prescribed automaton, up to `cap`,
/// then mixtures of tokens, broken tokens and stray characters.
pub fn lex_inputs(rng: &mut Rng, toks: &[Tok], l: &LexSpec, cap: usize, mixed: usize) -> Vec<String> {
    let mut out: BTreeSet<String> = BTreeSet::new();
    let mut seen: HashMap<Vec<u32>, String> = HashMap::new();
    let mut q = VecDeque::new();
    seen.insert(l.start(), String::new());
    q.push_back(l.start());
    while let Some(st) = q.pop_front() {
        let path = seen[&st].clone();
        for c in 0..l.classes.len() {
            for end in 0..2 {
                let ch = match class_char(rng, l, c, end) {
                    Some(x) => x,
                    None => continue,
                };
                let mut t = path.clone();
                t.push(ch);
                if end == 0 {
                    let n = l.step_class(&st, c);
                    if !LexSpec::dead(&n) && !seen.contains_key(&n) && seen.len() < 300 {
                        seen.insert(n.clone(), t.clone());
                        q.push_back(n);
                    }
                }
                if rng.pct(25) {
                    if let Some(x) = toks.get(rng.below(toks.len())) {
                        x.rx().sample(rng, &mut t);
                    }
                }
                out.insert(t);
            }
        }
    }
    let mut v: Vec<String> = out.into_iter().collect();
    rng.shuffle(&mut v);
    v.truncate(cap);
    v.push(String::new());
    let odd = ['\u{1}', ' ', '\n', '\t', '\r', '~', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{feff}', 'a', '0'];
    for _ in 0..mixed {
        let mut t = String::new();
        let n = rng.range(1, 12);
        for _ in 0..n {
            match rng.below(12) {
                0..=6 => rng.pick(toks).rx().sample(rng, &mut t),
                7 | 8 => {
                    let mut x = String::new();
                    rng.pick(toks).rx().sample(rng, &mut x);
                    let cs: Vec<char> = x.chars().collect();
                    let k = rng.below(cs.len() + 1);
                    t.extend(&cs[..k]);
                }
                9 | 10 => {
                    let c = rng.below(l.classes.len());
                    if let Some(ch) = class_char(rng, l, c, 2) {
                        t.push(ch);
                    }
                }
                _ => {
                    if rng.pct(30) {
                        t.push(*rng.pick(&odd))
                    }
                }
            }
        }
        v.push(t.replace('\0', ""));
    }
    v
}

/// The calls the token rules prescribe: outcome, start, end (in characters).
fn prescribed(l: &LexSpec, text: &[char], stop: impl Fn(Lexed, usize, usize) -> bool, extra: usize) -> Vec<(Lexed, usize, usize)> {
    let mut v = Vec::new();
    let mut pos = 0;
    let mut left = extra;
    loop {
        let (e, r) = l.next(text, pos);
        v.push((r, pos, e));
        if stop(r, pos, e) {
            if left == 0 {
                return v;
            }
            left -= 1;
        }
        pos = e;
    }
}

fn code(r: Lexed) -> i64 {
    match r {
        Lexed::Tok(i) => i as i64,
        Lexed::Eof => -1,
        Lexed::Err => -2,
    }
}

struct LexPlan {
    batch: Batch,
    sets: Vec<(String, Vec<Tok>, LexSpec)>,
    of: Vec<usize>,
    cases: Vec<Case>,
    texts: Vec<Vec<u8>>,
}

const EXTRA: usize = 4;

fn plan(ctx: &Ctx, dir: &str, kinds: &[Kind], want: usize, cap: usize, mixed: usize, mutate: bool) -> LexPlan {
    let sets = tok_sets(ctx, dir, want);
    let cpp = kinds.contains(&Kind::CppLexer);
    let mut batch = Batch::new(ctx, dir, if cpp { San::AddressUndefined } else { San::None });
    let mut of = Vec::new();
    let mut cases = Vec::new();
    let mut texts = Vec::new();
    for (i, (name, toks, l)) in sets.iter().enumerate() {
        let (spec, cfg) = lexer_spec(toks.clone());
        for kind in kinds {
            let u = ctx.case(
                &format!("generate/{}/{}-{}/{:?}", dir, name, i, kind),
                || spec.text(),
                || batch.add(name, &spec, cfg.clone(), A::Lr1, *kind),
            );
            let u = match u {
                Some(Some(u)) => u,
                _ => continue,
            };
            of.push(i);
            let mut rng = ctx.rng(&format!("{}-inputs", dir), i as u64);
            let mut inputs = lex_inputs(&mut rng, toks, l, cap, mixed);
            // texts longer than 16-bit offsets, one of them a single token where a rule allows it
            if i < ctx.scale(8, 40) {
                let mut t = String::new();
                let want = rng.range(66000, 140000);
                while t.len() < want {
                    let before = t.len();
                    for _ in 0..200 {
                        rng.pick(toks).rx().sample(&mut rng, &mut t);
                    }
                    t = t.replace('\0', "");
                    if t.len() == before {
                        break;
                    }
                }
                inputs.push(t);
                let mut t = String::new();
                let mut st = l.start();
                while t.len() < want {
                    let cs: Vec<usize> = (0..l.classes.len()).filter(|c| !LexSpec::dead(&l.step_class(&st, *c))).collect();
                    if cs.is_empty() {
                        break;
                    }
                    let c = *rng.pick(&cs);
                    match class_char(&mut rng, l, c, 2) {
                        Some(ch) => t.push(ch),
                        None => break,
                    }
                    st = l.step_class(&st, c);
                }
                inputs.push(t);
            }
            for t in inputs {
                let mut b = t.into_bytes();
                if *kind == Kind::CppLexer && mutate && rng.pct(35) {
                    break_utf8(&mut rng, &mut b);
                }
                cases.push(Case::Lex(u, b.clone(), EXTRA));
                texts.push(b);
            }
        }
    }
    LexPlan { batch, sets, of, cases, texts }
}

/// Insert, cut or damage bytes so that the text is (mostly) no longer UTF-8.
pub fn break_utf8(rng: &mut Rng, b: &mut Vec<u8>) {
    let bad: [&[u8]; 16] = [
        b"\x80", b"\xbf", b"\xc0\xaf", b"\xc1\xbf", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf",
        b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xff", b"\xfe", b"\xe2\x82", b"\xf0\x9f\x98",
    ];
    let at = rng.below(b.len() + 1);
    match rng.below(5) {
        0 | 1 => {
            let x = *rng.pick(&bad);
            b.splice(at..at, x.iter().copied());
        }
        2 => {
            // cut in the middle of a character if there is one
            if let Some(p) = (0..b.len()).filter(|p| b[*p] & 0xc0 == 0x80).nth(rng.below(3)) {
                b.truncate(p);
            } else {
                b.extend_from_slice(*rng.pick(&bad));
            }
        }
        3 => {
            let x = 1 + rng.below(255) as u8;
            b.insert(at, x);
        }
        _ => {
            if at < b.len() {
                b[at] = 128 + rng.below(128) as u8;
            } else {
                b.push(0xc3);
            }
        }
    }
}

fn show(calls: &[LexCall]) -> String {
    calls
        .iter()
        .map(|c| format!("{}@{}..{} {:?}", c.tok, c.start, c.end, String::from_utf8_lossy(&c.slice)))
        .collect::<Vec<_>>()
        .join("\n  ")
}

fn walk(
    ctx: &Ctx,
    p: &LexPlan,
    ran: &Ran,
    f: impl Fn(&LexSpec, &[u8], &[LexCall], Kind) -> Option<(String, String)>,
) {
    crate::parsers::broken_units(ctx, &p.batch, ran);
    let mut hs = Vec::new();
    for (i, r) in ran.replies.iter().enumerate() {
        let u = &p.batch.units[p.cases[i].unit()];
        let set = &p.sets[p.of[p.cases[i].unit()]];
        let show_in = || format!("{}\ninput bytes: {:?}\n", u.describe(), String::from_utf8_lossy(&p.texts[i]));
        match r {
            Reply::Lexed(calls) => {
                ctx.evals(1);
                ctx.count("lexer calls observed", calls.len() as u64);
                ctx.count("error results", calls.iter().filter(|c| c.tok == -2).count() as u64);
                ctx.count("tokens", calls.iter().filter(|c| c.tok >= 0).count() as u64);
                if !p.texts[i].is_ascii() {
                    ctx.count("inputs with non-ASCII text", 1);
                }
                hs.push(mix(&[hash_str(&u.grammar_text), hash_bytes(&p.texts[i]), u.kind as u64]));
                if calls.iter().any(|c| c.tok == -3) {
                    ctx.violation(
                        &format!("panic/{:?}", u.kind),
                        "the generated lexer panics",
                        format!("{}{}", show_in(), show(calls)),
                    );
                    continue;
                }
                if let Some((k, what)) = f(&set.2, &p.texts[i], calls, u.kind) {
                    ctx.violation(
                        &format!("{}/{:?}", k, u.kind),
                        &what,
                        format!("{}{}\ncalls (token index, -1 end, -2 error):\n  {}", show_in(), what, show(calls)),
                    );
                }
                if i % 1201 == 11 {
                    ctx.sample(|| format!("{} {:?}: {:?} -> {}", set.0, u.kind, String::from_utf8_lossy(&p.texts[i]), show(calls)));
                }
            }
            Reply::Crash(why) => ctx.violation(
                &format!("crash/{:?}", u.kind),
                "the generated lexer crashes or does not end",
                format!("{}{}", show_in(), why),
            ),
            _ => {}
        }
    }
    ctx.distinct_many(hs);
    ctx.count("token sets", p.sets.len() as u64);
}

pub fn c02(ctx: &'static Ctx) {
    ctx.describe(
        "curated and random token sets without precedence ties (decided by our own automata); inputs walk every transition of the prescribed product automaton, on the first and last character of every class, followed by mixtures of tokens, broken tokens and stray characters; the compiled lexer is called until the end, past errors and past the end; distinct by token set and input",
        &["our derivative automata give the meaning of the patterns we print", "rustc compiles the emitted code faithfully"],
    );
    let p = plan(ctx, "c02", &[Kind::RustLexer], ctx.scale(240, 900), ctx.scale(300, 600), ctx.scale(150, 400), false);
    let ran = p.batch.run(ctx, &p.cases);
    walk(ctx, &p, &ran, |l, text, calls, _| {
        let s = std::str::from_utf8(text).unwrap();
        let chars: Vec<char> = s.chars().collect();
        let mut offs: Vec<usize> = s.char_indices().map(|x| x.0).collect();
        offs.push(s.len());
        let want = prescribed(l, &chars, |r, a, b| r == Lexed::Eof || (r == Lexed::Err && a == b), EXTRA);
        for (i, w) in want.iter().enumerate() {
            let c = match calls.get(i) {
                Some(c) => c,
                None => return Some(("short".into(), "the lexer stops making the prescribed progress".into())),
            };
            if (c.start, c.end) != (offs[w.1], offs[w.2]) {
                return Some((
                    "length".into(),
                    format!("call {} consumes {}..{}, the longest viable prefix is {}..{}", i, c.start, c.end, offs[w.1], offs[w.2]),
                ));
            }
            if c.tok != code(w.0) {
                return Some(("token".into(), format!("call {} returns {}, prescribed is {}", i, c.tok, code(w.0))));
            }
        }
        None
    });
}

pub fn c03(ctx: &'static Ctx) {
    ctx.describe(
        "as for C02; only the spans and slices are judged, without use of the token rules: tiling, character boundaries, slices, and what happens after the end; distinct by token set and input",
        &["rustc compiles the emitted code faithfully"],
    );
    let p = plan(ctx, "c03", &[Kind::RustLexer], ctx.scale(130, 500), ctx.scale(200, 500), ctx.scale(250, 600), false);
    let ran = p.batch.run(ctx, &p.cases);
    walk(ctx, &p, &ran, |_, text, calls, _| {
        let mut pos = 0;
        let mut ended = false;
        for (i, c) in calls.iter().enumerate() {
            let bad = |k: &str, s: String| Some((k.to_string(), format!("call {}: {}", i, s)));
            if c.start != pos {
                return bad("tiling", format!("the span starts at {}, the one before ended at {}", c.start, pos));
            }
            if c.end < c.start || c.end > text.len() {
                return bad("range", format!("the span {}..{} is not inside the input", c.start, c.end));
            }
            let s = std::str::from_utf8(text).unwrap();
            if !s.is_char_boundary(c.start) || !s.is_char_boundary(c.end) {
                return bad("boundary", format!("the span {}..{} splits a character", c.start, c.end));
            }
            if c.slice != text[c.start..c.end] {
                return bad("slice", format!("slice() is {:?}", String::from_utf8_lossy(&c.slice)));
            }
            if ended && c.tok != -1 {
                return bad("after-end", "something else than end-of-file after end-of-file".into());
            }
            if c.tok == -1 {
                ended = true;
                if c.start != c.end || c.end != text.len() {
                    return bad("end", format!("end-of-file with the span {}..{} of {} bytes", c.start, c.end, text.len()));
                }
            }
            if c.tok >= 0 && c.start == c.end {
                return bad("empty", "a token with an empty span".into());
            }
            pos = c.end;
        }
        None
    });
}

pub fn c05(ctx: &'static Ctx) {
    ctx.describe(
        "token sets and inputs as for C02, a third of the inputs damaged so that they are not UTF-8; the generated C++ lexer runs under AddressSanitizer and UBSan and is compared call by call with the prescription; the Rust lexer generated from the same rules is run on the well-formed inputs and compared too; distinct by token set, language and input",
        &["our derivative automata give the meaning of the patterns we print", "whether the token directly before malformed bytes is returned or replaced by the error is left open by the statement"],
    );
    let p = plan(ctx, "c05", &[Kind::CppLexer], ctx.scale(120, 400), ctx.scale(300, 600), ctx.scale(250, 500), true);
    let ran = p.batch.run(ctx, &p.cases);
    walk(ctx, &p, &ran, |l, text, calls, _| {
        let (good, broken) = match std::str::from_utf8(text) {
            Ok(s) => (s, false),
            Err(e) => (std::str::from_utf8(&text[..e.valid_up_to()]).unwrap(), true),
        };
        let chars: Vec<char> = good.chars().collect();
        let mut want = prescribed(l, &chars, |r, _, _| matches!(r, Lexed::Eof | Lexed::Err), EXTRA);
        let mut loose = None;
        if broken {
            ctx.count("malformed inputs", 1);
            // nothing is prescribed by the tail of the text itself but the error at that point
            while matches!(want.last(), Some((Lexed::Eof, ..))) {
                want.pop();
            }
            if let Some(w) = want.last() {
                if w.2 == chars.len() {
                    loose = Some(want.len() - 1);
                }
            }
        }
        let bad = |k: &str, s: String| Some((k.to_string(), s));
        for (i, c) in calls.iter().enumerate() {
            match want.get(i) {
                Some(w) => {
                    if Some(i) == loose && c.tok == -2 {
                        return match calls[i..].iter().find(|c| c.tok != -2) {
                            Some(_) => bad("revived", "something else than the error token after malformed bytes".into()),
                            None => None,
                        };
                    }
                    if c.tok != code(w.0) {
                        return bad("token", format!("call {} returns {}, prescribed is {}", i, c.tok, code(w.0)));
                    }
                    if c.tok >= 0 && (c.start, c.end) != (w.1, w.2) {
                        return bad(
                            "span",
                            format!("call {} reports the bounds {}..{}, in code points they are {}..{}", i, c.start, c.end, w.1, w.2),
                        );
                    }
                }
                None if broken => {
                    if c.tok != -2 {
                        return bad("revived", format!("call {} returns {} at or after malformed bytes", i, c.tok));
                    }
                }
                None => break,
            }
        }
        if !broken && calls.len() < want.len() {
            return bad("short", "the lexer stops making the prescribed progress".into());
        }
        None
    });
    // the Rust lexer on the same inputs
    if ctx.over(ctx.budget(60, 500)) {
        return;
    }
    let q = plan(ctx, "c05", &[Kind::RustLexer], ctx.scale(50, 160), ctx.scale(300, 600), ctx.scale(250, 500), false);
    let rq = q.batch.run(ctx, &q.cases);
    let mut cpp: HashMap<(u64, &[u8]), &Vec<LexCall>> = HashMap::new();
    for (i, r) in ran.replies.iter().enumerate() {
        if let Reply::Lexed(c) = r {
            cpp.insert((hash_str(&p.batch.units[p.cases[i].unit()].grammar_text), &p.texts[i]), c);
        }
    }
    for (i, r) in rq.replies.iter().enumerate() {
        let u = &q.batch.units[q.cases[i].unit()];
        if let (Reply::Lexed(a), Some(b)) = (r, cpp.get(&(hash_str(&u.grammar_text), &q.texts[i][..]))) {
            ctx.count("call sequences compared with the Rust lexer", 1);
            let ta: Vec<i64> = a.iter().map(|c| c.tok).collect();
            let tb: Vec<i64> = b.iter().map(|c| c.tok).collect();
            let n = ta.len().min(tb.len());
            if ta[..n] != tb[..n] {
                ctx.violation(
                    "languages-differ",
                    "the C++ lexer and the Rust lexer of one grammar differ",
                    format!("{}\ninput {:?}\nRust {:?}\nC++ {:?}", u.describe(), String::from_utf8_lossy(&q.texts[i]), ta, tb),
                );
            }
        }
    }
}
