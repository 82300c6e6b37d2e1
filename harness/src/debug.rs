//! The debug command, run for real: cargo builds its scratch project and runs it.
use crate::cfg::*;
use crate::ctx::Ctx;
use crate::e2e::Ev;
use crate::files::cli;
use crate::gen;
use crate::glue::*;
use crate::lexers;
use crate::lexspec::{LexSpec, Lexed};
use crate::model::*;
use crate::oracle::*;
use crate::parsers::*;
use crate::rx::*;
use crate::util::*;
use std::path::{Path, PathBuf};

struct Project {
    name: String,
    spec: Spec,
    cfg: Cfg,
    lex: LexSpec,
    info: Info,
    texts: Vec<(String, Vec<u8>)>,
}

fn lit(n: &str, t: &str) -> Tok {
    Tok::lit(n, t)
}

fn some(n: &str, shown: &str, v: &[(char, char)]) -> Tok {
    let set = Set::new(v.iter().map(|(a, b)| (*a as u32, *b as u32)).collect());
    Tok { name: n.into(), prec: None, pat: TokPat::Re(Rx::Rep(Box::new(Rx::Set(set, shown.to_string())), 1, None)) }
}

fn newline() -> Tok {
    Tok { name: "NL".into(), prec: None, pat: TokPat::Re(Rx::Set(Set::new(vec![(10, 10)]), "[\\n]".into())) }
}

fn prods(list: &[(&str, &str, &str)]) -> Vec<Prod> {
    list.iter()
        .map(|(n, t, p)| Prod { name: (*n).into(), tag: if t.is_empty() { None } else { Some((*t).into()) }, pat: gen::pat(p) })
        .collect()
}

/// Grammars with tokens as people write them, white space being part of the grammar.
fn written() -> Vec<(&'static str, Spec, Vec<&'static str>)> {
    let spec = |toks: Vec<Tok>, entry: &str, p: &[(&str, &str, &str)]| Spec { toks, prods: prods(p), entry: entry.into() };
    vec![
        (
            "calculator",
            spec(
                vec![some("NUM", "[0-9]", &[('0', '9')]), lit("PLUS", "+"), lit("TIMES", "*"), lit("LPAR", "("), lit("RPAR", ")"), some("WS", "[ \\n]", &[(' ', ' '), ('\n', '\n')])],
                "line",
                &[
                    ("line", "", "sum"),
                    ("sum", "add", "sum PLUS ws product"),
                    ("sum", "one", "product"),
                    ("product", "mul", "product TIMES ws atom"),
                    ("product", "one", "atom"),
                    ("atom", "num", "NUM ws"),
                    ("atom", "par", "LPAR ws sum RPAR ws"),
                    ("ws", "", "WS?"),
                ],
            ),
            vec!["1+2*3", "1 + (2 * 3)\n", "((7))", "", "1+", "1+2)", "1 2", "12345 * 67890 + 1\n\n", " 1", "1+x", "1 + 2 * (3 + (4 * 5)) * 6 + 7"],
        ),
        (
            "ambiguous",
            spec(vec![lit("A", "a"), lit("P", "+")], "e", &[("e", "bin", "e P e"), ("e", "leaf", "A")]),
            vec!["a", "a+a", "a+a+a", "a+a+a+a", "a+", "+a", "aa", "a+a\n"],
        ),
        (
            "palindromes",
            spec(vec![lit("A", "a"), lit("B", "b")], "s", &[("s", "", "A s A | B s B | A A | B B")]),
            vec!["abba", "aa", "abab", "aabbaa", "a", "abbba", "abaaaaba", "baab"],
        ),
        (
            "lookahead",
            spec(
                vec![lit("ID", "id"), lit("COMMA", ","), lit("EQ", "="), lit("SEMI", ";")],
                "file",
                &[("file", "", "stmt+"), ("stmt", "decl", "names SEMI"), ("stmt", "assign", "targets EQ ID SEMI"), ("names", "", "ID (COMMA ID)*"), ("targets", "", "ID (COMMA ID)*")],
            ),
            vec!["id;", "id,id;", "id,id=id;", "id=id;id;", "id,id,id=id;id,id;", "id,=id;", "id", "id;;"],
        ),
        (
            "unicode",
            spec(vec![lit("AE", "ä"), lit("FACE", "\u{1f600}"), newline()], "s", &[("s", "", "(AE | FACE)+ NL?")]),
            vec!["ä", "ää\u{1f600}", "\u{1f600}\n", "a", "äa", "ä\n\n", "\u{1f601}"],
        ),
    ]
}

fn tokens_of(p: &Project, text: &[u8]) -> Option<Vec<u16>> {
    let s: Vec<char> = std::str::from_utf8(text).ok()?.chars().collect();
    let mut pos = 0;
    let mut out = Vec::new();
    loop {
        match p.lex.next(&s, pos) {
            (_, Lexed::Eof) => return Some(out),
            (_, Lexed::Err) => return None,
            (n, Lexed::Tok(t)) => {
                if n == pos {
                    return None;
                }
                out.push(t as u16);
                pos = n;
            }
        }
    }
}

/// A displayed symbol without its number; None for the empty right side.
fn symbol_name(s: &str) -> Option<&str> {
    if s == "<eps>" {
        return None;
    }
    Some(match s.find('(') {
        Some(i) if s.ends_with(')') => &s[..i],
        _ => s,
    })
}

fn rule_of(info: &Info, spec: &Spec, line: &str) -> Option<Vec<usize>> {
    let (l, r) = line.split_once("->")?;
    let lhs = l.trim();
    let rhs: Vec<&str> = r.split_whitespace().filter(|s| symbol_name(s).is_some()).collect();
    let same = |s: S, shown: &str| match s {
        S::T(t) => symbol_name(shown) == Some(spec.toks[t as usize].name.as_str()),
        S::N(n) => match &info.nts[n as usize] {
            Some(x) => symbol_name(shown) == Some(x.as_str()),
            None => shown == format!("<anon>({})", n),
        },
    };
    let v: Vec<usize> = (0..info.rules.len())
        .filter(|i| {
            let x = &info.rules[*i];
            same(S::N(x.lhs), lhs) && x.rhs.len() == rhs.len() && x.rhs.iter().zip(&rhs).all(|(s, t)| same(*s, t))
        })
        .collect();
    if v.is_empty() {
        None
    } else {
        Some(v)
    }
}

/// The callbacks the command printed, up to its verdict.
fn events(p: &Project, out: &str) -> Result<(Vec<Ev>, Vec<String>), String> {
    let mut ev = Vec::new();
    let mut rest = Vec::new();
    let mut n = 0;
    for line in out.lines() {
        if let Some(t) = line.strip_prefix("shift ") {
            let i = p.spec.toks.iter().position(|x| rust_token(&x.name) == t.trim()).ok_or(format!("unknown token in {:?}", line))?;
            ev.push(Ev::Shift(i as i64, n.to_string()));
            n += 1;
        } else if line.contains("->") {
            match rule_of(&p.info, &p.spec, line) {
                Some(v) => ev.push(Ev::Reduce(v[0])),
                None => return Err(format!("no rule of the grammar reads {:?}", line)),
            }
        } else if !line.trim().is_empty() {
            rest.push(line.to_string());
        }
    }
    Ok((ev, rest))
}

fn mutate(rng: &mut Rng, text: &str) -> String {
    let mut c: Vec<char> = text.chars().collect();
    match rng.below(4) {
        0 if !c.is_empty() => {
            let i = rng.below(c.len());
            c.remove(i);
        }
        1 => {
            let i = rng.below(c.len() + 1);
            c.insert(i, *rng.pick(&['$', '\n', 't', '0', 'ä', ' ']));
        }
        2 => c.push('\n'),
        _ => {
            let d = c.clone();
            c.extend(d);
        }
    }
    c.into_iter().collect()
}

fn projects(ctx: &'static Ctx) -> Vec<Project> {
    let mut out: Vec<Project> = Vec::new();
    let mut push = |name: &str, spec: Spec, cfg: Cfg, lex: LexSpec, texts: Vec<(String, Vec<u8>)>| {
        if cfg.cyclic_or_hidden() {
            return;
        }
        let text = spec.text();
        let Ok(info) = Info::of(&text, &spec.toks) else {
            ctx.count("grammars refused by the generator", 1);
            return;
        };
        let mut seen = std::collections::HashSet::new();
        if !info.rules.iter().all(|r| seen.insert((r.lhs, r.rhs.clone()))) {
            return;
        }
        out.push(Project { name: name.into(), spec, cfg, lex, info, texts });
    };
    let mut rng = ctx.rng("projects", 0);
    let mut hand = written();
    let per_hand = ctx.scale(5, 12);
    for (name, spec, texts) in hand.drain(..) {
        let cfg = Cfg::from_spec(&spec).unwrap();
        let lex = LexSpec::new(&spec.toks, 400).unwrap();
        let mut t: Vec<(String, Vec<u8>)> = texts.iter().map(|t| ("written".to_string(), t.as_bytes().to_vec())).collect();
        if !ctx.thorough {
            rng.shuffle(&mut t);
        }
        t.truncate(per_hand);
        if rng.pct(50) {
            t.push(("malformed".into(), vec![0xc3, b'a']));
        }
        push(name, spec, cfg, lex, t);
    }
    // source files far beyond any block size; the last characters decide
    {
        let spec = Spec {
            toks: vec![some("WORD", "[a-zä]", &[('a', 'z'), ('ä', 'ä')]), lit("COMMA", ","), newline()],
            prods: prods(&[("file", "", "line NL | file line NL"), ("line", "pair", "WORD COMMA WORD"), ("line", "single", "WORD")]),
            entry: "file".into(),
        };
        let cfg = Cfg::from_spec(&spec).unwrap();
        let lex = LexSpec::new(&spec.toks, 400).unwrap();
        let mut texts: Vec<(String, Vec<u8>)> = Vec::new();
        let sizes: &[usize] = if ctx.thorough { &[4096, 8192, 65536, 131072, 300000] } else { &[8192, 131072] };
        for n in sizes {
            let n = n - rng.below(8);
            let long = rng.pick(&["a", "bä", "z"]).repeat(n);
            let ends = ["\n", ",a\n", ",a", "\n,", "\nx,y\n", "\n\n", ",a\nb\nü\n"];
            for _ in 0..ctx.scale(1, 3) {
                let good = ends[[0, 1, 4][rng.below(3)]];
                texts.push(("long".into(), format!("{}{}", long, good).into_bytes()));
                let bad = ends[[2, 3, 5, 6][rng.below(4)]];
                texts.push(("long".into(), format!("{}{}", long, bad).into_bytes()));
            }
        }
        let many: String = (0..ctx.scale(1500, 4000)).map(|i| if i % 3 == 0 { "ab,c\n" } else { "wort\n" }).collect();
        texts.push(("long".into(), many.clone().into_bytes()));
        texts.push(("long".into(), format!("{},\n", many).into_bytes()));
        push("long", spec, cfg, lex, texts);
    }
    let want = ctx.scale(16, 90);
    let mut gs = grammars(ctx, "debug-conflicts", want / 2, |g| g.tame && !g.lalr);
    gs.extend(grammars(ctx, "debug-plain", want / 2, |g| g.tame && g.lalr));
    for (i, g) in gs.iter().enumerate() {
        let mut rng = ctx.rng("debug-texts", i as u64);
        let Some(lex) = LexSpec::new(&g.spec.toks, 400) else { continue };
        let mut texts = Vec::new();
        let m = g.cfg.lalr_machine(1500);
        let narrow = |w: &[u16]| m.as_ref().map(|m| g.cfg.width(m, w, 200) <= 200).unwrap_or(false);
        let per = ctx.scale(6, 8);
        for k in 0..per {
            let budget = rng.range(1, 25);
            let w = g.cfg.sentence(&mut rng, budget);
            if !narrow(&w) || w.len() > 400 {
                continue;
            }
            let mut w = w;
            if k % 2 == 1 && rng.pct(75) {
                let t = rng.below(g.spec.toks.len()) as u16;
                let i = rng.below(w.len() + 1);
                match rng.below(3) {
                    0 => w.insert(i, t),
                    1 if i < w.len() => {
                        w.remove(i);
                    }
                    _ if i < w.len() => w[i] = t,
                    _ => w.push(t),
                }
                if !narrow(&w) {
                    continue;
                }
                let t: String = w.iter().map(|t| format!("t{}", t)).collect();
                texts.push(("altered".to_string(), t.into_bytes()));
                continue;
            }
            let t: String = w.iter().map(|t| format!("t{}", t)).collect();
            if k % 2 == 0 {
                texts.push(("sentence".to_string(), t.into_bytes()));
            } else {
                let t = mutate(&mut rng, &t);
                texts.push(("damaged".to_string(), t.into_bytes()));
            }
        }
        if rng.pct(30) {
            texts.push(("empty".into(), Vec::new()));
        }
        push(&format!("{}-{}", g.name, i), g.spec.clone(), g.cfg.clone(), lex, texts);
    }
    // every sequence of tokens is a sentence: the verdict is the lexer's
    for (i, (name, toks, lex)) in lexers::tok_sets(ctx, "debug", ctx.scale(6, 21)).into_iter().enumerate() {
        // the compiler takes minutes for the parsers of the largest
        if toks.len() > 30 {
            continue;
        }
        let mut rng = ctx.rng("debug-lex", i as u64);
        let alt = Pat::Alt(toks.iter().map(|t| Pat::Ref(t.name.clone())).collect());
        let alt = if toks.len() == 1 { r(&toks[0].name) } else { alt };
        let spec = Spec {
            prods: vec![Prod { name: "all".into(), tag: None, pat: Pat::Star(Box::new(Pat::Ref("one".into()))) }, Prod { name: "one".into(), tag: None, pat: alt }],
            toks: toks.clone(),
            entry: "all".into(),
        };
        let Some(cfg) = Cfg::from_spec(&spec) else { continue };
        let mut inputs = lexers::lex_inputs(&mut rng, &toks, &lex, 8, 8);
        rng.shuffle(&mut inputs);
        let texts = inputs
            .into_iter()
            .filter(|t| !t.contains('\0') && t.chars().count() < 200)
            .take(4)
            .map(|t| ("lexed".to_string(), t.into_bytes()))
            .collect();
        push(&format!("lexer-{}", name), spec, cfg, lex, texts);
    }
    out
}

struct Place {
    root: PathBuf,
    grammar: PathBuf,
    source: PathBuf,
    cwd: PathBuf,
    tmp: PathBuf,
}

fn place(ctx: &Ctx, label: &str) -> Place {
    let root = ctx.work.join(label);
    let p = Place {
        grammar: root.join("in/grammar.lapex"),
        source: root.join("in/source text.txt"),
        cwd: root.join("cwd"),
        tmp: root.join("tmp"),
        root,
    };
    for d in ["in", "cwd", "tmp", "home"] {
        std::fs::create_dir_all(p.root.join(d)).unwrap();
    }
    std::fs::write(p.cwd.join("keep.txt"), "kept").unwrap();
    p
}

fn command<'a>(p: &Place, tmp: &Path, args: &[&str], relative: bool) -> Run<'a> {
    let home = std::env::var("HOME").unwrap_or("/root".into());
    let rustup = std::env::var("RUSTUP_HOME").unwrap_or(format!("{}/.rustup", home));
    let (g, s) = if relative {
        (PathBuf::from("../in/grammar.lapex"), PathBuf::from("../in/source text.txt"))
    } else {
        (p.grammar.clone(), p.source.clone())
    };
    let mut r = Run::new(cli())
        .arg("debug")
        .arg(g)
        .arg(s)
        .args(args)
        .env("TMPDIR", &tmp.display().to_string())
        .env("HOME", &p.root.join("home").display().to_string())
        .env("CARGO_HOME", &p.root.join("home/cargo").display().to_string())
        .env("RUSTUP_HOME", &rustup)
        .env("RUST_BACKTRACE", "0")
        .dir(&p.cwd)
        .timeout(240);
    for v in ["CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_INCREMENTAL"] {
        r.cmd.env_remove(v);
    }
    r
}

/// What the run left behind, apart from what cargo keeps for itself.
fn leftovers(p: &Place, tmp: &Path, before: &std::collections::BTreeMap<String, Vec<u8>>) -> Option<String> {
    let left: Vec<String> =
        std::fs::read_dir(tmp).map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
    if !left.is_empty() {
        return Some(format!("in the temporary directory: {:?}", left));
    }
    for d in ["in", "cwd"] {
        for (k, v) in read_tree(&p.root.join(d)) {
            if before.get(&format!("{}/{}", d, k)) != Some(&v) {
                return Some(format!("{}/{} is new or changed", d, k));
            }
        }
    }
    for k in before.keys() {
        if !p.root.join(k).exists() {
            return Some(format!("{} is gone", k));
        }
    }
    None
}

fn snapshot(p: &Place) -> std::collections::BTreeMap<String, Vec<u8>> {
    let mut m = std::collections::BTreeMap::new();
    for d in ["in", "cwd"] {
        for (k, v) in read_tree(&p.root.join(d)) {
            m.insert(format!("{}/{}", d, k), v);
        }
    }
    m
}

pub fn c28(ctx: &'static Ctx) {
    ctx.describe(
        "runs of the debug command (cargo builds and runs its scratch project) on written, curated and random grammars, two fifths of them with conflicts, with sentences, damaged sentences, texts that cannot be lexed, empty and malformed files; distinct by grammar and text, and, for refused grammars, by refusal",
        &["our token automata and Earley recogniser decide whether the text is a sentence", "cargo's own cache directory is not a file left behind"],
    );
    let ps = projects(ctx);
    let mut jobs: Vec<(usize, usize)> = Vec::new();
    for (i, p) in ps.iter().enumerate() {
        jobs.extend((0..p.texts.len()).map(|k| (i, k)));
    }
    let mut rng = ctx.rng("order", 0);
    rng.shuffle(&mut jobs);
    let shared = ctx.work.join("shared-tmp");
    std::fs::create_dir_all(&shared).unwrap();
    let budget = ctx.budget(150, 780);
    par_map(jobs.len(), |j| {
        if ctx.over(budget) {
            ctx.count("runs left out for time", 1);
            return;
        }
        let (pi, ti) = jobs[j];
        let p = &ps[pi];
        let (kind, text) = &p.texts[ti];
        let gtext = p.spec.text();
        ctx.case(&format!("{}/{}", p.name, ti), || format!("{}\n{}", gtext, String::from_utf8_lossy(text)), || {
            let pl = place(ctx, &format!("run-{}", j));
            std::fs::write(&pl.grammar, &gtext).unwrap();
            std::fs::write(&pl.source, text).unwrap();
            let before = snapshot(&pl);
            // some runs use one temporary directory at the same time
            let together = j % 5 == 0;
            let tmp = if together { shared.clone() } else { pl.tmp.clone() };
            let Ok(out) = command(&pl, &tmp, &[], j % 3 == 0).run() else {
                ctx.violation("run", "the command line program cannot be run", String::new());
                return;
            };
            ctx.evals(1);
            ctx.distinct(mix(&[hash_str(&gtext), hash_bytes(text)]));
            ctx.count(&format!("runs on {} texts", kind), 1);
            let toks = tokens_of(p, text);
            let sentence = match &toks {
                None => false,
                Some(w) => judge(&p.cfg, w) == Verdict::Sentence,
            };
            ctx.count(
                match (&toks, sentence) {
                    (None, _) => "texts that are no token sequence",
                    (_, true) => "texts that are sentences",
                    _ => "texts that are no sentences",
                },
                1,
            );
            let so = out.out_text();
            let se = out.err_text();
            let tail: String = {
                let v: Vec<&str> = se.lines().filter(|l| l.len() < 300).collect();
                v[v.len().saturating_sub(25)..].join("\n")
            };
            let detail = |what: &str| {
                format!(
                    "{}\ngrammar\n{}text {:?}\ntokens {:?}\nsentence {}\nstatus {:?}\nstdout\n{}\nstderr (end)\n{}",
                    what,
                    gtext,
                    String::from_utf8_lossy(text),
                    toks,
                    sentence,
                    out.describe().lines().next(),
                    so,
                    tail
                )
            };
            let said = so.lines().filter(|l| l.starts_with("Successfully parsed")).count() + se.lines().filter(|l| l.starts_with("Successfully parsed")).count();
            let key = format!("{}-{}", p.name, ti);
            if (said > 0) != sentence {
                ctx.violation(
                    &format!("verdict-{}", key),
                    "the debug command's verdict differs from the grammar's",
                    detail(if sentence { "a sentence is not reported as parsed" } else { "success is reported for a text that is no sentence" }),
                );
            } else if sentence {
                match events(p, &so) {
                    Err(e) => ctx.violation(&format!("events-{}", key), "the debug command lists something that is no rule or token", detail(&e)),
                    Ok((ev, rest)) => {
                        let seq = to_seq(toks.as_ref().unwrap());
                        if rest.len() != 1 {
                            ctx.violation(&format!("lines-{}", key), "the debug command prints other lines than the derivation and its verdict", detail(&format!("{:?}", rest)));
                        } else if !rest[0].contains("source text.txt") {
                            ctx.violation(&format!("name-{}", key), "the verdict names another file", detail(&rest[0]));
                        }
                        match replay_info(&p.spec, &p.info, &ev, &seq, 0, true) {
                            Err(e) => ctx.violation(&format!("derivation-{}", key), "the listed shifts and reductions are no derivation of the text", detail(&e)),
                            Ok(n) => {
                                ctx.count("derivations replayed", 1);
                                ctx.count("derivation nodes", n as u64);
                            }
                        }
                    }
                }
            }
            if out.ok() != (said > 0) {
                ctx.violation(
                    &format!("status-{}", if said > 0 { "success" } else { "failure" }),
                    "the exit status contradicts the verdict",
                    detail(if said > 0 { "success is printed with a failure status" } else { "no success is printed, but the status says so" }),
                );
            }
            if !together {
                if let Some(what) = leftovers(&pl, &tmp, &before) {
                    ctx.violation("leftovers", "the debug command leaves files behind", detail(&what));
                }
            }
            if j % 17 == 3 {
                ctx.sample(|| format!("{} {:?}: {}", p.name, String::from_utf8_lossy(text), so));
            }
            let _ = std::fs::remove_dir_all(&pl.root);
        });
    });
    let left: Vec<String> =
        std::fs::read_dir(&shared).map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
    if !left.is_empty() {
        ctx.violation("leftovers-shared", "runs side by side leave files behind in their temporary directory", format!("{:?}", left));
    }
    refusals(ctx);
}

/// Grammars the generator refuses, and files that are not there.
fn refusals(ctx: &'static Ctx) {
    let cases: Vec<(&str, &str, Option<&str>)> = vec![
        ("syntax", "token A = ;\nentry s;\nprod s = A;\n", Some("a")),
        ("unknown-name", "token A = \"a\";\nentry s;\nprod s = B;\n", Some("a")),
        ("tie", "token A = \"a\";\ntoken B = \"a\";\nentry s;\nprod s = A;\n", Some("a")),
        ("no-entry", "token A = \"a\";\nprod s = A;\n", Some("a")),
        ("no-source", "token A = \"a\";\nentry s;\nprod s = A;\n", None),
        ("empty-grammar", "", Some("a")),
    ];
    par_map(cases.len(), |i| {
        let (name, g, s) = cases[i];
        ctx.case(&format!("refusal/{}", name), || g.to_string(), || {
            let pl = place(ctx, &format!("refusal-{}", name));
            std::fs::write(&pl.grammar, g).unwrap();
            if let Some(s) = s {
                std::fs::write(&pl.source, s).unwrap();
            }
            let before = snapshot(&pl);
            let Ok(out) = command(&pl, &pl.tmp, &[], false).run() else { return };
            ctx.evals(1);
            ctx.distinct(hash_str(name));
            ctx.count("refusals", 1);
            let said = out.out_text().contains("Successfully parsed") || out.err_text().contains("Successfully parsed");
            if said {
                ctx.violation(&format!("refusal-{}", name), "the debug command reports success without having parsed", out.describe());
            }
            if out.ok() {
                ctx.violation(&format!("refusal-status-{}", name), "the debug command refuses with the status of a success", out.describe());
            }
            if out.err_text().trim().is_empty() {
                ctx.violation(&format!("refusal-silent-{}", name), "the debug command refuses without a word", out.describe());
            }
            if let Some(what) = leftovers(&pl, &pl.tmp, &before) {
                ctx.violation(&format!("refusal-leftovers-{}", name), "the debug command leaves files behind after a refusal", format!("{}\n{}", what, out.describe()));
            }
            let _ = std::fs::remove_dir_all(&pl.root);
        });
    });
}
