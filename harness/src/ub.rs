//! Undefined behaviour: the generator under Miri and AddressSanitizer, what it emits under Miri,
//! AddressSanitizer, UBSan, LeakSanitizer and memcheck.
use crate::cfg::*;
use crate::ctx::Ctx;
use crate::e2e::*;
use crate::files::{lang_name, COMBOS};
use crate::front;
use crate::gen;
use crate::glue::*;
use crate::lexers;
use crate::model::*;
use crate::parsers::*;
use crate::util::*;
use std::path::PathBuf;
use std::time::Duration;

struct Job {
    label: String,
    text: String,
    l: L,
    a: A,
    opts: &'static str,
}

impl Job {
    fn describe(&self) -> String {
        format!("{} {} options {}\n{}", lang_name(self.l), self.a.name(), self.opts, self.text)
    }
}

fn is_report(text: &str) -> bool {
    ["Undefined Behavior", "AddressSanitizer", "runtime error:", "unsafe precondition", "Invalid read", "Invalid write", "uninitialised"]
        .iter()
        .any(|k| text.contains(k))
}

fn tiny() -> Vec<(&'static str, String)> {
    let g = |t: &str| t.to_string();
    vec![
        ("pairs", g("token A = \"a\";\ntoken B = \"b\";\nentry s;\nprod s = A s B;\nprod s = A B;\n")),
        ("tagged", g("token A = \"a\";\ntoken P = \"+\";\nentry e;\nprod e [bin] = e P A;\nprod e [leaf] = A;\n")),
        ("conflict", g("token A = \"a\";\nentry e;\nprod e = e e;\nprod e = A;\n")),
        ("reduce-reduce", g("token A = \"a\";\nentry s;\nprod s = x | y;\nprod x = A;\nprod y = A;\n")),
        ("epsilon", g("token A = \"a\";\ntoken B = \"b\";\nentry s;\nprod s = A? B*;\n")),
        ("expression", g("token N = /[0-9]+/;\ntoken P = \"+\";\nentry s;\nprod s = s P N | N;\n")),
        ("duplicate", g("token A = \"a\";\nentry s;\nprod s = A;\nprod s = A;\n")),
        ("tie", g("token A = /[a-c]/;\ntoken B = /[b-d]/;\nentry s;\nprod s = A B;\n")),
        ("unused", g("token A = \"a\";\ntoken B = \"b\";\nentry s;\nprod s = A;\nprod t = B s;\n")),
    ]
}

/// One generation per process, interpreted.
fn miri_generator(ctx: &'static Ctx, until: Duration) {
    let mut rng = ctx.rng("miri-gen", 0);
    let mut jobs: Vec<Job> = Vec::new();
    let t = tiny();
    let plain = [(L::Rust, A::Lalr), (L::Rust, A::Glr), (L::Rust, A::Lr1), (L::Rust, A::Lr0)];
    for (i, (n, text)) in t.iter().enumerate() {
        // what these grammars are good for; the others are refused, which is also a path
        let (l, a) = match *n {
            "pairs" | "tagged" | "expression" => plain[(i + ctx.seed as usize) % 4],
            "epsilon" | "tie" => plain[(i + ctx.seed as usize) % 3],
            "conflict" | "duplicate" => plain[1],
            _ => plain[(i + ctx.seed as usize) % 2],
        };
        jobs.push(Job { label: format!("miri/{}", n), text: text.clone(), l, a, opts: "t" });
    }
    let want = ctx.scale(4, 60);
    for i in 0..want {
        if let Some((s, _)) = gen::find(&mut rng, 400, |s, c| s.prods.len() <= 3 && s.toks.len() <= 3 && c.rules.len() <= 6) {
            let (l, a) = plain[rng.below(4)];
            jobs.push(Job { label: format!("miri/random-{}", i), text: plain_tokens(&s).text(), l, a, opts: if i % 3 == 0 { "lt" } else { "t" } });
        }
    }
    rng.shuffle(&mut jobs);
    // the C++ back end takes long: it compiles a regular expression per file
    let cpp = [(L::Cpp, A::Lalr, "t", 0), (L::Cpp, A::Lr1, "t", 1), (L::Cpp, A::Ll1, "x", 4), (L::Cpp, A::Lr0, "l", 1)];
    for k in 0..ctx.scale(3, 16) {
        let (l, a, opts, which) = cpp[(k + ctx.seed as usize) % 4];
        let (n, text) = &t[which];
        jobs.insert(0, Job { label: format!("miri/cpp-{}-{}", n, k), text: text.clone(), l, a, opts });
    }
    par_map(jobs.len(), |i| {
        let j = &jobs[i];
        if ctx.start.elapsed() > until || ctx.enough() {
            ctx.count("generations under Miri left out for time", 1);
            return;
        }
        let dir = ctx.work.join(format!("miri-{}", i));
        std::fs::create_dir_all(dir.join("out")).unwrap();
        std::fs::write(dir.join("g.lapex"), &j.text).unwrap();
        let out = Run::new("cargo")
            .args(["miri", "run", "-q", "--offline", "--locked", "--"])
            .arg(dir.join("g.lapex"))
            .arg(dir.join("out"))
            .args([lang_name(j.l), j.a.name(), j.opts])
            .env("RUSTUP_TOOLCHAIN", "nightly-x86_64-unknown-linux-gnu")
            .env("MIRI_SYSROOT", &miri_sysroot())
            .env("MIRIFLAGS", &format!("-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed={}", mix(&[ctx.seed, i as u64]) % 100000))
            .env("CARGO_TARGET_DIR", "/verif/target/miri-build")
            .env("LAPEXMON_LOUD", "1")
            .dir(&ctx.verif.join("miri"))
            .timeout(if ctx.thorough { 500 } else { 240 });
        let Ok(out) = out.run() else { return };
        ctx.evals(1);
        ctx.distinct(hash_str(&j.describe()));
        let (o, e) = (out.out_text(), out.err_text());
        // cargo says a word or two of its own first
        let o = o.lines().last().unwrap_or("").trim().to_string();
        if out.ok() && ["done", "errors", "panic"].contains(&o.split(' ').next().unwrap()) {
            ctx.count(
                match o.split(' ').next().unwrap() {
                    "done" => "generations interpreted by Miri, completed",
                    _ => "generations interpreted by Miri, refused",
                },
                1,
            );
            if o != "done" {
                let e: Vec<&str> = e.lines().filter(|l| l.len() < 300).collect();
                ctx.sample(|| format!("Miri, refused: {} -> {}\n{}", j.describe(), o, e[e.len().saturating_sub(6)..].join("\n")));
            } else if i % 5 == 1 {
                ctx.sample(|| format!("Miri: {} -> {}", j.describe(), o));
            }
        } else if is_report(&e) {
            ctx.violation(
                &format!("miri-generator-{}", j.label),
                "Miri finds undefined behaviour in the generator",
                format!("{}\n{}", j.describe(), cut(&e, 6000)),
            );
        } else {
            ctx.count("generations under Miri without an answer", 1);
            ctx.sample(|| format!("no answer from Miri: {}\n{}", out.describe(), cut(&e, 800)));
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
}

fn cut(s: &str, n: usize) -> String {
    s.chars().take(n).collect()
}

/// Many generations per process, compiled with AddressSanitizer.
fn asan_generator(ctx: &'static Ctx) {
    let bin = PathBuf::from("/verif/target/asan-build/x86_64-unknown-linux-gnu/asan/lapexmiri");
    let mut jobs: Vec<Job> = Vec::new();
    let mut push = |label: String, text: String, k: usize| {
        let opts = ["lt", "l", "t", "x"];
        for (n, (l, a)) in COMBOS.iter().enumerate() {
            if (n + k) % 2 == 0 {
                jobs.push(Job { label: label.clone(), text: text.clone(), l: *l, a: *a, opts: opts[(n / 2 + k) % 4] });
            }
        }
    };
    for (i, (n, t)) in tiny().into_iter().enumerate() {
        push(format!("asan/{}", n), t.clone(), i);
        push(format!("asan/{}", n), t, i + 1);
    }
    for (i, (n, s)) in gen::curated().into_iter().enumerate() {
        push(format!("asan/{}", n), s.text(), i + ctx.seed as usize);
    }
    for i in 0..ctx.scale(120, 1200) {
        let mut rng = ctx.rng("asan-gen", i as u64);
        let text = match i % 3 {
            0 => front::rich_spec(&mut rng).text(),
            _ => gen::any_spec(&mut rng).text(),
        };
        // damaged texts take the error paths
        let text = if i % 6 == 5 {
            let mut c: Vec<char> = text.chars().collect();
            for _ in 0..rng.range(1, 3) {
                let k = rng.below(c.len());
                match rng.below(3) {
                    0 => {
                        c.remove(k);
                    }
                    1 => c[k] = *rng.pick(&['"', ';', '/', 'ä', '\u{1f600}', '|', '(', '\n']),
                    _ => c.truncate(k.max(1)),
                }
            }
            c.into_iter().collect()
        } else {
            text
        };
        push(format!("asan/random-{}", i), text, i);
    }
    let per = 24;
    let chunks: Vec<&[Job]> = jobs.chunks(per).collect();
    par_map(chunks.len(), |c| {
        let mut todo: &[Job] = chunks[c];
        let dir = ctx.work.join(format!("asan-{}", c));
        std::fs::create_dir_all(dir.join("out")).unwrap();
        while !todo.is_empty() && !ctx.enough() {
            let mut input = String::new();
            for (i, j) in todo.iter().enumerate() {
                let g = dir.join(format!("g{}.lapex", i));
                std::fs::write(&g, &j.text).unwrap();
                input.push_str(&format!("{}\t{}\t{}\t{}\t{}\n", g.display(), dir.join("out").display(), lang_name(j.l), j.a.name(), j.opts));
            }
            let out = Run::new(&bin)
                .stdin(input.as_bytes())
                .env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:strict_string_checks=1")
                .timeout(200)
                .run();
            let Ok(out) = out else { panic!("the sanitized generator cannot be run") };
            let o = out.out_text();
            let answers: Vec<&str> = o.lines().collect();
            for (j, a) in todo.iter().zip(&answers) {
                ctx.evals(1);
                ctx.distinct(hash_str(&j.describe()));
                ctx.count(&format!("generations under AddressSanitizer: {}", a.split(' ').next().unwrap_or("")), 1);
            }
            if answers.len() >= todo.len() {
                break;
            }
            let j = &todo[answers.len()];
            let e = out.err_text();
            if is_report(&e) {
                ctx.violation(
                    &format!("asan-generator-{}", j.label),
                    "AddressSanitizer finds an invalid access in the generator",
                    format!("{}\n{}", j.describe(), cut(&e, 6000)),
                );
            } else {
                ctx.count("generations that ended without an answer (time, stack)", 1);
            }
            todo = &todo[answers.len() + 1..];
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
}

fn bytes(rng: &mut Rng, texts: &[String]) -> Vec<u8> {
    let mut b: Vec<u8> = match rng.below(4) {
        0 => (0..rng.below(60)).map(|_| rng.below(256) as u8).collect(),
        1 => {
            // every kind of lead byte with too few, too many and wrong tail bytes
            let mut v = Vec::new();
            for _ in 0..rng.range(1, 12) {
                v.push(*rng.pick(&[0x00, 0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xf8, 0xfc, 0xfe, 0xff]));
                for _ in 0..rng.below(4) {
                    v.push(*rng.pick(&[0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0x41, 0xc2]));
                }
            }
            v
        }
        _ => rng.pick(texts).clone().into_bytes(),
    };
    match rng.below(4) {
        0 => {
            let n = rng.below(b.len() + 1);
            b.truncate(n);
        }
        1 => lexers::break_utf8(rng, &mut b),
        2 => {
            let d = b.clone();
            for _ in 0..rng.below(40) {
                b.extend_from_slice(&d);
            }
        }
        _ => {}
    }
    b.truncate(4000);
    b
}

fn hostile_seq(rng: &mut Rng, cfg: &Cfg, nt: usize) -> Seq {
    let mut w: Seq = if rng.pct(70) {
        let budget = rng.range(1, 40);
        cfg.sentence(rng, budget).into_iter().take(3000).map(|t| t as i32).collect()
    } else {
        (0..rng.below(30)).map(|_| rng.below(nt) as i32).collect()
    };
    for _ in 0..rng.below(3) {
        let k = rng.below(w.len() + 1);
        match rng.below(6) {
            0 => w.insert(k, -2),
            1 => w.insert(k, -3),
            2 => w.insert(k, -1),
            3 => w.truncate(k),
            _ => w.insert(k, rng.below(nt) as i32),
        }
    }
    if rng.pct(15) {
        w.insert(0, -100 - rng.below(12) as i32);
    }
    w
}

/// Emitted C++ under the sanitizers or memcheck.
fn emitted_cpp(ctx: &'static Ctx, san: San, lexers_n: usize, parsers_n: usize, per: usize) {
    let name = if san == San::Valgrind { "memcheck" } else { "sanitizers" };
    let mut batch = Batch::new(ctx, name, san);
    batch.leaks = true;
    batch.padded = true;
    let mut cases = Vec::new();
    for (i, (n, toks, l)) in lexers::tok_sets(ctx, &format!("ub-{}", name), lexers_n).into_iter().enumerate() {
        let (spec, cfg) = lexers::lexer_spec(toks.clone());
        let mut rng = ctx.rng(&format!("ub-bytes-{}", name), i as u64);
        let texts = lexers::lex_inputs(&mut rng, &toks, &l, 20, 30);
        if let Some(u) = batch.add(&n, &spec, cfg, A::Lalr, Kind::CppLexer) {
            if i % 4 == 0 && san != San::Valgrind {
                for b in 0..=255u8 {
                    cases.push(Case::Lex(u, vec![b], 2));
                }
            }
            for _ in 0..per {
                cases.push(Case::Lex(u, bytes(&mut rng, &texts), rng.below(4)));
            }
        }
    }
    let gs = grammars(ctx, &format!("ub-{}", name), parsers_n, |g| g.ll1 || g.lalr || g.lr1);
    for (i, g) in gs.iter().enumerate() {
        let mut algs = Vec::new();
        if g.ll1 {
            algs.push(A::Ll1);
        }
        if g.lalr {
            algs.push(A::Lalr);
        } else if g.lr1 {
            algs.push(A::Lr1);
        }
        for a in algs {
            let Some(u) = batch.add(&g.name, &g.spec, g.cfg.clone(), a, Kind::CppParser) else { continue };
            let mut rng = ctx.rng(&format!("ub-seqs-{}", name), (i * 8 + a as usize) as u64);
            let nt = g.spec.toks.len();
            for _ in 0..per {
                let k = rng.range(1, 3);
                cases.push(Case::Parse(u, (0..k).map(|_| hostile_seq(&mut rng, &g.cfg, nt)).collect()));
            }
            if san != San::Valgrind {
                // a long one
                let mut long: Seq = Vec::new();
                while long.len() < 3000 {
                    let w = g.cfg.sentence(&mut rng, 400);
                    if w.is_empty() {
                        break;
                    }
                    long.extend(w.iter().map(|t| *t as i32));
                }
                cases.push(Case::Parse(u, vec![long]));
            }
        }
    }
    judge_run(ctx, &batch, &cases, name);
}

fn judge_run(ctx: &'static Ctx, batch: &Batch, cases: &[Case], name: &str) {
    let ran = batch.run(ctx, cases);
    broken_units(ctx, batch, &ran);
    for (i, r) in ran.replies.iter().enumerate() {
        let u = &batch.units[cases[i].unit()];
        if matches!(r, Reply::Skipped) {
            ctx.count(&format!("{}: cases not run", name), 1);
            continue;
        }
        ctx.evals(1);
        ctx.distinct(mix(&[hash_str(name), hash_str(&u.grammar_text), u.kind as u64, u.alg as u64, hash_str(&format!("{:?}", cases[i]))]));
        ctx.count(&format!("{}: {:?} {} runs", name, u.kind, if matches!(cases[i], Case::Lex(..)) { "" } else { u.alg.name() }), 1);
        match r {
            Reply::Crash(why) => {
                ctx.violation(
                    &format!("{}/{:?}/{}", name, u.kind, u.alg.name()),
                    if is_report(why) { "undefined behaviour in generated code" } else { "generated code crashes" },
                    format!("{}\ncase {:?}\n{}", u.describe(), cases[i], why),
                );
            }
            Reply::Parses(v) => {
                for o in v {
                    ctx.count(
                        match &o.res {
                            Res::Ok => "parses that succeed",
                            Res::Bad(_) => "parses whose visitor throws",
                            _ => "parses that fail",
                        },
                        1,
                    );
                }
                if i % 997 == 3 {
                    ctx.sample(|| format!("{}: {} {:?}", name, u.name, cases[i]));
                }
            }
            Reply::Lexed(v) => {
                ctx.count("lexer calls", v.len() as u64);
                ctx.count("lexer calls that return the error token", v.iter().filter(|c| c.tok == -2).count() as u64);
                if i % 997 == 3 {
                    ctx.sample(|| format!("{}: {} {:?}", name, u.name, cases[i]));
                }
            }
            Reply::Skipped => {}
        }
    }
    for t in &ran.at_exit {
        ctx.violation(&format!("{}/exit", name), "memory is leaked or misused by generated code", t.clone());
    }
}

/// Emitted Rust, interpreted.
fn emitted_rust(ctx: &'static Ctx, n: usize, per: usize) {
    let mut batch = Batch::new(ctx, "miri-emitted", San::Miri);
    let mut cases = Vec::new();
    for (i, (name, toks, l)) in lexers::tok_sets(ctx, "ub-miri", n).into_iter().enumerate() {
        let (spec, cfg) = lexers::lexer_spec(toks.clone());
        let mut rng = ctx.rng("ub-miri-lex", i as u64);
        let texts = lexers::lex_inputs(&mut rng, &toks, &l, 4, per);
        if let Some(u) = batch.add(&name, &spec, cfg, A::Lalr, Kind::RustLexer) {
            for t in texts.into_iter().take(per) {
                cases.push(Case::Lex(u, t.chars().take(60).collect::<String>().into_bytes(), 1));
            }
        }
    }
    let mut gs = grammars(ctx, "ub-miri-lr", n, |g| g.lr1 && g.cfg.rules.len() <= 12);
    let split = gs.len();
    gs.extend(grammars(ctx, "ub-miri-glr", n, |g| g.tame && !g.lalr && g.cfg.rules.len() <= 12));
    for (i, g) in gs.iter().enumerate() {
        let a = if i >= split { A::Glr } else if g.lalr { A::Lalr } else { A::Lr1 };
        let m = g.cfg.lalr_machine(1500);
        let Some(u) = batch.add(&g.name, &g.spec, g.cfg.clone(), a, Kind::RustParser) else { continue };
        let mut rng = ctx.rng("ub-miri-words", i as u64);
        for w in inputs(&g.cfg, &mut rng, per / 2, per / 2, 6) {
            if a != A::Glr || m.as_ref().map(|m| g.cfg.width(m, &w, 20) <= 20).unwrap_or(false) {
                cases.push(Case::Parse(u, vec![to_seq(&w), vec![0, 0]]));
            }
        }
    }
    // with the process pool of Miri every unit is interpreted by one of a few processes
    judge_run(ctx, &batch, &cases, "miri-emitted");
}

pub fn c27(ctx: &'static Ctx) {
    ctx.describe(
        "generations of tiny grammars interpreted by Miri and of curated, random and damaged ones under AddressSanitizer (all languages and algorithms); emitted Rust lexers and parsers interpreted by Miri; emitted C++ lexers on valid, malformed, truncated and random bytes and emitted C++ parsers on sentences, damaged and random token sequences with error tokens, throwing token sources and throwing visitors, under AddressSanitizer, UBSan, LeakSanitizer and memcheck; distinct by tool, grammar and input",
        &["paths that are not executed are not judged", "panics of the generator are refusals, not undefined behaviour"],
    );
    asan_generator(ctx);
    emitted_cpp(ctx, San::AddressUndefined, ctx.scale(24, 120), ctx.scale(24, 140), ctx.scale(150, 400));
    emitted_cpp(ctx, San::Valgrind, ctx.scale(8, 40), ctx.scale(8, 40), ctx.scale(40, 120));
    emitted_rust(ctx, ctx.scale(3, 12), ctx.scale(10, 20));
    let until = ctx.start.elapsed() + ctx.budget(60, 400);
    miri_generator(ctx, until);
}
