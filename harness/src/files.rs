//! The command line program watched from outside: files, status, diagnostics, faults.
use crate::cfg::Cfg;
use crate::ctx::Ctx;
use crate::front;
use crate::gen;
use crate::glue::*;
use crate::lexers;
use crate::model::*;
use crate::parsers::{classify, grammars};
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

pub type Files = BTreeMap<String, Vec<u8>>;

pub fn cli() -> PathBuf {
    PathBuf::from(std::env::var("LAPEXMON_CLI").unwrap_or_else(|_| "/verif/target/debug/lapex-cli".into()))
}

/// Build the recording and fault injecting library.
pub fn shim(ctx: &Ctx) -> PathBuf {
    let so = ctx.work.join("shim.so");
    let src = ctx.verif.join("harness/shim/shim.c");
    let o = Run::new("gcc")
        .args(["-O1", "-w", "-shared", "-fPIC", "-o"])
        .arg(&so)
        .arg(&src)
        .arg("-ldl")
        .run()
        .expect("gcc");
    assert!(o.ok(), "the shim does not compile: {}", o.err_text());
    so
}

pub fn lang_name(l: L) -> &'static str {
    match l {
        L::Rust => "rust",
        L::Cpp => "cpp",
    }
}

/// The files a complete run writes; None where the combination is not implemented.
pub fn file_set(l: L, a: A, lexer: bool, table: bool) -> Option<BTreeSet<String>> {
    let mut v: Vec<&str> = Vec::new();
    match (l, a) {
        (L::Rust, A::Ll1) | (L::Cpp, A::Glr) => return None,
        (L::Rust, _) => {
            v.extend(["tokens.rs", "parser.rs"]);
            if lexer {
                v.push("lexer.rs");
            }
        }
        (L::Cpp, _) => {
            v.extend(["tokens.h", "tokens.cpp", "parser.h", "parser.cpp", "parser_impl.h", "visitor.h"]);
            if lexer {
                v.extend(["lexer.h", "lexer.cpp"]);
            }
        }
    }
    if table && a != A::Ll1 {
        v.push("table");
    }
    Some(v.into_iter().map(String::from).collect())
}

fn is_parser_file(n: &str) -> bool {
    n.starts_with("parser") || n.starts_with("visitor")
}

/// Same names, same bytes, ordinary files.
pub fn complete(dir: &Path, want: &Files) -> Result<(), String> {
    for (n, b) in want {
        let p = dir.join(n);
        match std::fs::symlink_metadata(&p) {
            Err(_) => return Err(format!("{} is missing", n)),
            Ok(m) if !m.is_file() => return Err(format!("{} is no ordinary file", n)),
            _ => {}
        }
        let got = std::fs::read(&p).unwrap_or_default();
        if got != *b {
            let at = got.iter().zip(b).position(|(x, y)| x != y).unwrap_or(got.len().min(b.len()));
            return Err(format!("{} has {} bytes instead of {}, first difference at byte {}", n, got.len(), b.len(), at));
        }
    }
    Ok(())
}

fn fresh(p: &Path) {
    let _ = std::fs::remove_dir_all(p);
    std::fs::create_dir_all(p).expect("directory");
}

/// Files of an earlier, different and longer output.
fn stale(dir: &Path, want: &Files) {
    for (n, b) in want {
        let mut t = b"// left behind by an earlier run\n".to_vec();
        t.extend(b.iter().rev());
        t.extend(b.iter());
        std::fs::write(dir.join(n), t).expect("stale file");
    }
}

pub fn reference(ctx: &Ctx, label: &str, text: &str, l: L, a: A, lexer: bool, table: bool) -> (Gen, Files) {
    let d = ctx.work.join(format!("ref-{}", label));
    fresh(&d);
    let g = d.join("grammar.lapex");
    std::fs::write(&g, text).unwrap();
    let t = d.join("out");
    std::fs::create_dir_all(&t).unwrap();
    let r = generate(lexer, a, table, &g, &t, l);
    let f = read_tree(&t);
    let _ = std::fs::remove_dir_all(&d);
    (r, f)
}

pub const COMBOS: [(L, A); 10] = [
    (L::Rust, A::Lr0),
    (L::Rust, A::Lalr),
    (L::Rust, A::Lr1),
    (L::Rust, A::Glr),
    (L::Cpp, A::Ll1),
    (L::Cpp, A::Lr0),
    (L::Cpp, A::Lalr),
    (L::Cpp, A::Lr1),
    (L::Cpp, A::Glr),
    (L::Rust, A::Ll1),
];

// --------------------------------------------------------------------------- determinism

/// A grammar with many levels, tokens and productions.
fn large_spec(rng: &mut Rng) -> Spec {
    let levels = rng.range(4, 9);
    let mut toks = vec![
        Tok { name: "IDENT".into(), prec: None, pat: TokPat::Raw("[a-z_][a-z0-9_]*".into()) },
        Tok { name: "NUMBER".into(), prec: None, pat: TokPat::Raw("[0-9]+(\\.[0-9]+)?".into()) },
        Tok::lit("OPEN", "("),
        Tok::lit("CLOSE", ")"),
        Tok::lit("BEGIN", "{"),
        Tok::lit("END", "}"),
        Tok::lit("SEMI", ";"),
        Tok::lit("COMMA", ","),
    ];
    let mut prods = Vec::new();
    let mut add = |n: &str, tag: &str, body: &str| {
        prods.push(Prod {
            name: n.into(),
            tag: if tag.is_empty() { None } else { Some(tag.into()) },
            pat: gen::pat(body),
        })
    };
    for k in 0..rng.range(2, 6) {
        toks.push(Tok { name: format!("KW{}", k), prec: Some(5), pat: TokPat::Lit(format!("kw{}", (b'a' + k as u8) as char)) });
        add("stmt", &format!("k{}", k), &format!("KW{} OPEN expr0 CLOSE BEGIN stmt* END", k));
    }
    add("program", "", "stmt+");
    add("stmt", "plain", "expr0 SEMI");
    for l in 0..levels {
        let n = rng.range(1, 3);
        for o in 0..n {
            let t = format!("OP{}X{}", l, o);
            toks.push(Tok::lit(&t, &format!("{}{}", ["+", "-", "*", "/", "%", "&", "^", "<", ">", "="][l % 10], ["", "!", "~"][o])));
            add(&format!("expr{}", l), "", &format!("expr{} {} expr{}", l, t, l + 1));
        }
        add(&format!("expr{}", l), "", &format!("expr{}", l + 1));
    }
    add(&format!("expr{}", levels), "call", "IDENT OPEN (expr0 (COMMA expr0)*)? CLOSE");
    add(&format!("expr{}", levels), "name", "IDENT");
    add(&format!("expr{}", levels), "number", "NUMBER");
    add(&format!("expr{}", levels), "paren", "OPEN expr0 CLOSE");
    Spec { toks, prods, entry: "program".into() }
}

pub fn c19(ctx: &'static Ctx) {
    ctx.describe(
        "realistic, large, conflict-ridden, lexer-heavy and hostile-name grammars; every language and algorithm; the outputs of repeated in-process runs on threads with a disturbed heap and of command line processes with varied location, environment, locale, allocator filling, grammar path, stale target contents, short reads and writes, and time are compared byte by byte; distinct by grammar, language, algorithm and way of running",
        &["differences that no run of this check shows (one in very many runs) are not excluded"],
    );
    let shim = shim(ctx);
    let cli = cli();
    let mut specs: Vec<(String, String)> = Vec::new();
    for (n, s) in gen::curated() {
        specs.push((n.to_string(), s.text()));
    }
    let n = ctx.scale(30, 200);
    for i in 0..n {
        let mut rng = ctx.rng("c19-large", i as u64);
        if i % 5 == 0 {
            specs.push((format!("large{}", i), large_spec(&mut rng).text()));
        }
        specs.push((format!("random{}", i), gen::any_spec(&mut rng).text()));
        specs.push((format!("rich{}", i), front::rich_spec(&mut rng).text()));
    }
    let sets = lexers::tok_sets(ctx, "c19-toks", ctx.scale(30, 150));
    for (n, t, _) in &sets {
        specs.push((format!("lexer-{}", n), lexers::lexer_spec(t.clone()).0.text()));
    }
    let mut jobs = Vec::new();
    for (i, (n, _)) in specs.iter().enumerate() {
        for (k, (l, a)) in COMBOS.iter().enumerate() {
            // the lexer does not depend on the algorithm
            if n.starts_with("lexer-") && k % 4 != i % 4 {
                continue;
            }
            jobs.push((i, *l, *a));
        }
    }
    let started = std::time::Instant::now();
    // a run whose outcome takes long is not repeated
    let first: Vec<Option<(Gen, Files)>> = par_map(jobs.len(), |j| {
        let (i, l, a) = jobs[j];
        let (name, text) = &specs[i];
        let label = format!("{}/{}/{}", name, lang_name(l), a.name());
        ctx.case(&label, || text.clone(), || {
            let (r0, f0) = reference(ctx, &format!("{}-0", j), text, l, a, true, true);
            let mut junk: Vec<Vec<u8>> = Vec::new();
            let mut rng = ctx.rng("c19-heap", j as u64);
            for k in 1..3usize {
                for _ in 0..rng.range(1, 40) {
                    junk.push(vec![0xa5; rng.range(1, 5000)]);
                }
                let len = junk.len();
                junk.swap_remove(rng.below(len));
                let (r, f) = reference(ctx, &format!("{}-{}", j, k), text, l, a, true, true);
                ctx.evals(1);
                ctx.count("in-process repetitions", 1);
                if r.done() != r0.done() || (r.done() && f != f0) {
                    ctx.violation(
                        &format!("inproc/{}/{}", lang_name(l), a.name()),
                        "generating twice in one process gives different files",
                        format!("{}\nfirst: {}\nagain: {}\n{}", text, r0.text(), r.text(), diff(&f0, &f)),
                    );
                }
            }
            (r0, f0)
        })
    });
    let variants = ctx.scale(5, 12);
    let waves = 2;
    for wave in 0..waves {
        if wave == 1 {
            // another second of the clock
            let e = started.elapsed();
            if e < std::time::Duration::from_millis(1300) {
                std::thread::sleep(std::time::Duration::from_millis(1300) - e);
            }
        }
        let todo: Vec<(usize, usize)> = (0..jobs.len())
            .filter(|j| matches!(&first[*j], Some((Gen::Done, _))))
            .flat_map(|j| (0..variants).map(move |v| (j, v)))
            .filter(|(j, v)| (j + v) % waves == wave || *v < 1)
            .collect();
        par_map(todo.len(), |t| {
            let (j, v) = todo[t];
            let (i, l, a) = jobs[j];
            let (name, text) = &specs[i];
            let (_, f0) = first[j].as_ref().unwrap();
            let mut rng = ctx.rng("c19-variant", mix(&[j as u64, v as u64, wave as u64]));
            let base = ctx.work.join(format!("v-{}-{}-{}", wave, j, v));
            fresh(&base);
            let longer = "deep/".repeat(rng.range(0, 12)) + &"d".repeat(rng.range(1, 120));
            let home = base.join(if v == 0 { "h".to_string() } else { longer });
            std::fs::create_dir_all(&home).unwrap();
            let gname = if v % 2 == 0 { "grammar.lapex".to_string() } else { format!("g {} ü.txt", rng.below(1000)) };
            let gpath = home.join(&gname);
            std::fs::write(&gpath, text).unwrap();
            let target = home.join(if v == 1 { "out put" } else { "out" });
            std::fs::create_dir_all(&target).unwrap();
            if v % 3 == 2 {
                stale(&target, f0);
            }
            let mut r = Run::new(&cli).arg("generate");
            r.cmd.env_clear();
            r = r.env("PATH", "/usr/bin:/bin").dir(&home);
            let (ga, ta) = match v % 3 {
                0 => (PathBuf::from(&gname), PathBuf::from(format!("./{}", target.file_name().unwrap().to_string_lossy()))),
                1 => (gpath.clone(), target.clone()),
                _ => {
                    let s = base.join("link");
                    let _ = std::os::unix::fs::symlink(&gpath, &s);
                    (s, target.clone())
                }
            };
            r = r.arg(&ga).args(["-l", lang_name(l), "-a", a.name(), "--table", "--target"]).arg(&ta);
            if v % 2 == 1 {
                r = r
                    .env("LC_ALL", rng.pick(&["tr_TR.UTF-8", "C.UTF-8", "de_DE", "POSIX"]))
                    .env("TZ", rng.pick(&["Pacific/Kiritimati", "UTC", "America/St_Johns"]))
                    .env("RUST_BACKTRACE", "1")
                    .env("USER", "somebody")
                    .env("PAD", &"p".repeat(rng.range(0, 4000)));
            }
            if v % 4 >= 1 {
                r = r.env("MALLOC_PERTURB_", &rng.range(1, 255).to_string());
            }
            if v % 4 == 3 {
                let k = rng.range(0, 2);
                r = r.env("LD_PRELOAD", &shim.to_string_lossy()).env(
                    "LAPEXSHIM_FAULT",
                    &match k {
                        0 => format!("shortr:0:0:{}", rng.range(1, 50)),
                        1 => format!("short:{}:0:{}", rng.below(5), rng.range(1, 300)),
                        _ => format!("write:{}:4:0", rng.below(5)),
                    },
                );
            }
            let o = r.timeout(60).run().expect("command line program");
            let f = read_tree(&target);
            ctx.evals(1);
            ctx.count("command line runs compared", 1);
            ctx.count("files compared", f0.len() as u64);
            ctx.count("bytes compared", f0.values().map(|b| b.len() as u64).sum());
            ctx.distinct(mix(&[hash_str(text), l as u64, a as u64, v as u64]));
            if v == 1 && j % 53 == 5 {
                ctx.sample(|| format!("{} {} {}: {} files, cwd {}", name, lang_name(l), a.name(), f.len(), home.display()));
            }
            if o.timed_out {
                ctx.count("command line runs ended at the time limit", 1);
            } else if o.code != Some(0) || f != *f0 {
                ctx.violation(
                    &format!("process/{}/{}", lang_name(l), a.name()),
                    "the same grammar and options give different files in another process",
                    format!("{}\nvariant {}: {} {}\n{}", text, v, o.describe(), o.err_text(), diff(f0, &f)),
                );
            }
            let _ = std::fs::remove_dir_all(&base);
        });
    }
    for f in first.iter().flatten() {
        ctx.count(if f.0.done() { "grammar and option pairs accepted" } else { "grammar and option pairs refused" }, 1);
    }
}

pub fn diff(a: &Files, b: &Files) -> String {
    let mut o = String::new();
    for k in a.keys().chain(b.keys()).collect::<BTreeSet<_>>() {
        match (a.get(k), b.get(k)) {
            (Some(x), Some(y)) if x == y => {}
            (Some(x), Some(y)) => {
                let (x, y) = (String::from_utf8_lossy(x), String::from_utf8_lossy(y));
                let at = x.lines().zip(y.lines()).position(|(p, q)| p != q);
                match at {
                    Some(i) => o.push_str(&format!(
                        "{} line {}:\n  {}\n  {}\n",
                        k,
                        i + 1,
                        x.lines().nth(i).unwrap_or(""),
                        y.lines().nth(i).unwrap_or("")
                    )),
                    None => o.push_str(&format!("{}: {} and {} bytes\n", k, x.len(), y.len())),
                }
            }
            (Some(_), None) => o.push_str(&format!("{} only in the first\n", k)),
            _ => o.push_str(&format!("{} only in the second\n", k)),
        }
    }
    o
}

// --------------------------------------------------------------------------- write faults

#[derive(Clone, Debug)]
enum Fault {
    Shim(String),
    Limit(u64),
    /// name of an output that is a link to /dev/full
    Full(String),
    /// name of an output that is a directory
    Dir(String),
    /// name of an output that is a link to nowhere creatable
    Dangling(String),
    NoTarget,
    TargetIsFile,
}

/// The generators themselves, with writers that fail at one call each.
fn own_writers(ctx: &'static Ctx) {
    let prog = ctx.verif.join("target/debug/mon_write");
    if std::env::var_os("LAPEXMON_WRITERS").is_none() || !prog.exists() {
        ctx.count("left out: the generators do not build with writers of our own", 1);
        return;
    }
    let mut rng = ctx.rng("c21-own", 0);
    let mut specs: Vec<(String, String)> = gen::curated().into_iter().map(|(n, s)| (n.to_string(), s.text())).collect();
    rng.shuffle(&mut specs);
    specs.truncate(ctx.scale(5, 20));
    for i in 0..ctx.scale(8, 80) {
        specs.push((format!("rich{}", i), front::rich_spec(&mut rng).text()));
    }
    let mut toks = lexers::curated_toks();
    rng.shuffle(&mut toks);
    for (n, t) in toks.into_iter().take(ctx.scale(2, 10)) {
        specs.push((format!("lexer-{}", n), lexers::lexer_spec(t).0.text()));
    }
    let most = ctx.scale(160, 1200);
    let budget = ctx.budget(40, 200);
    let jobs: Vec<(usize, L, A)> = (0..specs.len()).flat_map(|i| COMBOS.iter().map(move |(l, a)| (i, *l, *a))).collect();
    par_map(jobs.len(), |j| {
        if ctx.over(budget) {
            ctx.count("generators left out for time", 1);
            return;
        }
        let (i, l, a) = jobs[j];
        let (name, text) = &specs[i];
        let path = ctx.work.join(format!("own-{}.lapex", j));
        std::fs::write(&path, text).unwrap();
        let o = Run::new(&prog)
            .arg(&path)
            .args([lang_name(l), a.name(), &format!("{}", j), &most.to_string()])
            .timeout(100)
            .run()
            .expect("mon_write");
        let _ = std::fs::remove_file(&path);
        let mut seen = 0u64;
        for line in o.out_text().lines() {
            let f: Vec<&str> = line.split('\t').collect();
            match f[0] {
                "total" => ctx.count("operations of generators on their writers", f[1].parse().unwrap_or(0)),
                "run" => {
                    ctx.evals(1);
                    ctx.count(
                        match (f[2], f[3]) {
                            ("success", "complete") => "writer faults absorbed",
                            ("success", _) => "writer faults passed over",
                            (_, "complete") => "writer faults reported, texts complete",
                            _ => "writer faults reported",
                        },
                        1,
                    );
                    seen += 1;
                    ctx.distinct(mix(&[hash_str(text), l as u64, a as u64, hash_str(f[1])]));
                    if seen == 30 && j % 13 == 0 {
                        ctx.sample(|| format!("{} {} {}: {}", name, lang_name(l), a.name(), line));
                    }
                    if f[2] == "success" && f[3] != "complete" {
                        ctx.violation(
                            &format!("own/{}/{}/{}", lang_name(l), a.name(), f[3]),
                            "a generator reports success although a writer refused some of its text",
                            format!("{}\nlanguage {}, algorithm {}\nfault {} at: {}", text, lang_name(l), a.name(), f[1], f[4..].join(" ")),
                        );
                    }
                }
                _ => {}
            }
        }
        ctx.count(if seen > 0 { "generators run with writers of our own" } else { "generators that refused the grammar" }, 1);
    });
}

pub fn c21(ctx: &'static Ctx) {
    own_writers(ctx);
    ctx.level("fault_enumeration");
    ctx.describe(
        "the generators with writers that fail at one call each (error, nothing taken, half taken and then error, error from there on, failing open and flush); the command line program on grammars of all sizes in every language and algorithm; a reference run counts its opens and writes, then every one of them is made to fail (error once or from there on, short write, zero write, interruption), every output file is cut off at many byte offsets (budget of the file, size limit of the process), and outputs are made impossible (full device, directory in the way, dangling link, missing target); distinct by grammar, options and fault",
        &["closing a file reports no errors in Rust's standard library, so faults that only show there are not injected"],
    );
    let shim = shim(ctx);
    let cli = cli();
    let mut subjects: Vec<(String, String, L, A, bool, bool)> = Vec::new();
    let mut small: Vec<(String, Spec)> = gen::curated().into_iter().map(|(n, s)| (n.to_string(), s)).collect();
    let mut rng = ctx.rng("c21", 0);
    rng.shuffle(&mut small);
    small.truncate(ctx.scale(4, 16));
    for i in 0..ctx.scale(2, 8) {
        small.push((format!("large{}", i), large_spec(&mut rng)));
    }
    let mut toks = lexers::curated_toks();
    rng.shuffle(&mut toks);
    toks.truncate(ctx.scale(1, 6));
    for (n, t) in toks {
        small.push((format!("lexer-{}", n), lexers::lexer_spec(t).0));
    }
    for (n, s) in &small {
        for (l, a) in COMBOS {
            if file_set(l, a, true, true).is_some() {
                subjects.push((n.clone(), s.text(), l, a, true, true));
                if rng.pct(20) {
                    subjects.push((n.clone(), s.text(), l, a, rng.pct(50), false));
                }
            }
        }
    }
    // reference runs by the program itself
    struct Ready {
        name: String,
        text: String,
        l: L,
        a: A,
        lexer: bool,
        table: bool,
        files: Files,
        opens: usize,
        writes: usize,
        reads: usize,
    }
    let args = |l: L, a: A, lexer: bool, table: bool| {
        let mut v = vec!["-l", lang_name(l), "-a", a.name()];
        if !lexer {
            v.push("--no-lexer");
        }
        if table {
            v.push("--table");
        }
        v
    };
    let ready: Vec<Ready> = par_map(subjects.len(), |i| {
        let (name, text, l, a, lexer, table) = subjects[i].clone();
        let d = ctx.work.join(format!("r{}", i));
        fresh(&d.join("out"));
        std::fs::write(d.join("g.lapex"), &text).unwrap();
        let o = Run::new(&cli)
            .arg("generate")
            .arg("g.lapex")
            .args(args(l, a, lexer, table))
            .args(["--target", "out"])
            .dir(&d)
            .env("LD_PRELOAD", &shim.to_string_lossy())
            .env("LAPEXSHIM_LOG", &d.join("log").to_string_lossy())
            .timeout(60)
            .run()
            .expect("command line program");
        let log = std::fs::read_to_string(d.join("log")).unwrap_or_default();
        let n = |k: &str| log.lines().filter(|x| x.split('\t').next() == Some(k)).count();
        let r = Ready {
            name,
            text,
            l,
            a,
            lexer,
            table,
            files: if o.code == Some(0) { read_tree(&d.join("out")) } else { Files::new() },
            opens: n("open"),
            writes: n("write"),
            reads: n("read"),
        };
        let _ = std::fs::remove_dir_all(&d);
        r
    })
    .into_iter()
    .filter(|r| !r.files.is_empty())
    .collect();
    let mut jobs: Vec<(usize, Fault, bool)> = Vec::new();
    let many = ctx.scale(6, 40);
    for (i, r) in ready.iter().enumerate() {
        let mut rng = ctx.rng("c21-faults", i as u64);
        ctx.count("writes seen in reference runs", r.writes as u64);
        ctx.count("files opened for writing in reference runs", r.opens as u64);
        let mut add = |f: Fault, rng: &mut Rng| {
            let s = rng.pct(50);
            jobs.push((i, f, s))
        };
        for w in 0..r.writes {
            if r.writes > 40 && !rng.pct(4000 / r.writes) {
                continue;
            }
            for f in [
                format!("write:{}:28:0", w),
                format!("write:{}:5:0", w),
                format!("writes:{}:28:0", w),
                format!("write:{}:4:0", w),
                format!("short:{}:0:{}", w, rng.range(1, 5000)),
                format!("short:{}:0:1", w),
                format!("shortf:{}:27:{}", w, rng.range(1, 5000)),
                format!("zero:{}:0:0", w),
                format!("write:{}:11:0", w),
            ] {
                add(Fault::Shim(f), &mut rng);
            }
        }
        for o in 0..r.opens {
            for f in [
                format!("open:{}:13:0", o),
                format!("open:{}:28:0", o),
                format!("open:{}:24:0", o),
                format!("open:{}:4:0", o),
                format!("opens:{}:30:0", o),
                format!("open:{}:17:0", o),
                format!("open:{}:2:0", o),
            ] {
                add(Fault::Shim(f), &mut rng);
            }
            let biggest = r.files.values().map(|b| b.len()).max().unwrap_or(0);
            let mut offs: BTreeSet<usize> = [0, 1, 2, 4095, 4096, 8191, 8192, 8193, 16384, 65536].into_iter().collect();
            for b in r.files.values() {
                for d in [1, 2, 10] {
                    offs.insert(b.len().saturating_sub(d));
                }
                offs.insert(b.len());
            }
            for _ in 0..many {
                offs.insert(rng.below(biggest + 2));
            }
            for b in offs {
                if b <= biggest {
                    add(Fault::Shim(format!("budget:{}:28:{}", o, b)), &mut rng);
                }
            }
        }
        for k in 0..r.reads {
            for f in [format!("read:{}:5:0", k), format!("read:{}:4:0", k), format!("shortr:{}:0:{}", k, rng.range(1, 100))] {
                add(Fault::Shim(f), &mut rng);
            }
        }
        let mut sizes: BTreeSet<usize> = r.files.values().flat_map(|b| [b.len(), b.len().saturating_sub(1)]).collect();
        for _ in 0..many {
            let biggest = r.files.values().map(|b| b.len()).max().unwrap_or(0);
            sizes.insert(rng.below(biggest + 2));
        }
        for s in sizes {
            add(Fault::Limit(s as u64), &mut rng);
        }
        for n in r.files.keys() {
            add(Fault::Full(n.clone()), &mut rng);
            add(Fault::Dir(n.clone()), &mut rng);
            add(Fault::Dangling(n.clone()), &mut rng);
        }
        add(Fault::NoTarget, &mut rng);
        add(Fault::TargetIsFile, &mut rng);
    }
    ctx.rng("c21-order", 0).shuffle(&mut jobs);
    let budget = ctx.budget(60, 500);
    par_map(jobs.len(), |j| {
        if ctx.over(budget) {
            ctx.count("faults left out for time", 1);
            return;
        }
        let (i, fault, old) = &jobs[j];
        let r = &ready[*i];
        let d = ctx.work.join(format!("f{}", j));
        let out = d.join("out");
        fresh(&out);
        std::fs::write(d.join("g.lapex"), &r.text).unwrap();
        let mut run = Run::new(&cli)
            .arg("generate")
            .arg("g.lapex")
            .args(args(r.l, r.a, r.lexer, r.table))
            .args(["--target", "out"])
            .dir(&d)
            .env("LD_PRELOAD", &shim.to_string_lossy())
            .env("LAPEXSHIM_LOG", &d.join("log").to_string_lossy())
            .timeout(60);
        if *old {
            stale(&out, &r.files);
        }
        match fault {
            Fault::Shim(f) => run = run.env("LAPEXSHIM_FAULT", f),
            Fault::Limit(n) => run = run.fsize(*n),
            Fault::Full(n) => {
                let _ = std::fs::remove_file(out.join(n));
                std::os::unix::fs::symlink("/dev/full", out.join(n)).unwrap();
            }
            Fault::Dir(n) => {
                let _ = std::fs::remove_file(out.join(n));
                std::fs::create_dir(out.join(n)).unwrap();
            }
            Fault::Dangling(n) => {
                let _ = std::fs::remove_file(out.join(n));
                std::os::unix::fs::symlink("nowhere/at/all", out.join(n)).unwrap();
            }
            Fault::NoTarget => {
                let _ = std::fs::remove_dir_all(&out);
            }
            Fault::TargetIsFile => {
                let _ = std::fs::remove_dir_all(&out);
                std::fs::write(&out, "in the way").unwrap();
            }
        }
        // the log itself must not fall under a size limit
        if matches!(fault, Fault::Limit(_)) {
            run.cmd.env_remove("LAPEXSHIM_LOG");
        }
        let o = run.run().expect("command line program");
        let log = std::fs::read_to_string(d.join("log")).unwrap_or_default();
        let injected = log.lines().filter(|x| x.starts_with("fault\t")).count();
        let whole = complete(&out, &r.files);
        ctx.evals(1);
        ctx.count("faults injected by the library", injected as u64);
        ctx.count(
            match (&whole, o.code) {
                (Ok(()), Some(0)) => "runs that absorbed or never met the fault",
                (Ok(()), _) => "runs that failed with complete files",
                (Err(_), Some(0)) => "runs that reported success with incomplete files",
                (Err(_), _) => "runs that reported failure with incomplete files",
            },
            1,
        );
        ctx.distinct(mix(&[hash_str(&r.text), r.l as u64, r.a as u64, hash_str(&format!("{:?}", fault))]));
        if j % 997 == 3 {
            ctx.sample(|| format!("{} {} {} {:?}: {}, files {:?}", r.name, lang_name(r.l), r.a.name(), fault, o.describe(), whole));
        }
        let kind = match fault {
            Fault::Shim(f) => f.split(':').next().unwrap_or("").to_string(),
            f => format!("{:?}", f).split('(').next().unwrap_or("").to_string(),
        };
        if o.timed_out {
            ctx.violation(
                &format!("hang/{}/{}/{}", kind, lang_name(r.l), r.a.name()),
                "the program does not end when output cannot be written",
                format!("{}\n{:?}", r.text, fault),
            );
        } else if o.code == Some(0) {
            if let Err(e) = whole {
                ctx.violation(
                    &format!("silent/{}/{}/{}", kind, lang_name(r.l), r.a.name()),
                    "success is reported although an output file is missing or incomplete",
                    format!(
                        "{}\nlanguage {}, algorithm {}, lexer {}, table {}\nfault {:?}, stale files before: {}\n{}\nopens and writes:\n{}",
                        r.text, lang_name(r.l), r.a.name(), r.lexer, r.table, fault, old, e, log
                    ),
                );
            }
        }
        let _ = std::fs::remove_dir_all(&d);
    });
}

// --------------------------------------------------------------------------- options and status

struct Sub {
    name: String,
    bytes: Vec<u8>,
    /// Some: valid; tells for each algorithm whether the grammar is in its class
    class: Option<[bool; 5]>,
    /// token rules without a tie
    lexer_ok: bool,
}

fn idx(a: A) -> usize {
    match a {
        A::Ll1 => 0,
        A::Lr0 => 1,
        A::Lalr => 2,
        A::Lr1 => 3,
        A::Glr => 4,
    }
}

fn lexical(p: &Path) -> PathBuf {
    let mut o = PathBuf::new();
    for c in p.components() {
        match c {
            std::path::Component::ParentDir => {
                o.pop();
            }
            std::path::Component::CurDir => {}
            c => o.push(c),
        }
    }
    o
}

/// What the log says was touched outside `target` (canonical path).
fn outside(log: &str, target: &Path) -> Vec<String> {
    let mut bad = Vec::new();
    for line in log.lines() {
        let f: Vec<&str> = line.split('\t').collect();
        if f.len() < 5 || ["write", "read", "fault"].contains(&f[0]) {
            continue;
        }
        for p in [f[3], f[4]] {
            if p.is_empty() || p.starts_with("/dev/") {
                continue;
            }
            let abs = Path::new(f[2]).join(p);
            let real = match abs.parent().and_then(|q| q.canonicalize().ok()) {
                Some(q) => q.join(abs.file_name().unwrap_or_default()),
                None => lexical(&abs),
            };
            let allowed = real.starts_with(target) || (f[0] == "mkdir" && target.starts_with(&real));
            if !allowed {
                bad.push(format!("{} {}", f[0], real.display()));
            }
        }
    }
    bad
}

pub fn c22(ctx: &'static Ctx) {
    ctx.describe(
        "the command line program with every combination of language, algorithm, --no-lexer and --table on grammars in and outside of each class, grammars with token ties, broken, missing and unreadable grammar files, odd spellings of the options and target paths, wrong command lines; status, standard error, file set, file contents against the generator called directly and against the run without the option, everything opened for writing or created, and the surrounding directories before and after; distinct by grammar, options and target form",
        &["class membership comes from our own automata", "which files belong to a language and algorithm is written down in the check"],
    );
    let shim = shim(ctx);
    let cli = cli();
    let mut subs: Vec<Sub> = Vec::new();
    let each = ctx.scale(4, 20);
    let preds: [(&str, fn(&crate::parsers::G) -> bool); 6] = [
        ("ll1", |g| g.ll1),
        ("lr0", |g| g.lr0),
        ("lalr", |g| g.lalr && !g.lr0),
        ("lr1", |g| g.lr1 && !g.lalr),
        ("wild", |g| !g.lr1),
        ("ll-not-lr0", |g| g.ll1 && !g.lr0),
    ];
    let mut seen = BTreeSet::new();
    for (n, p) in preds {
        for g in grammars(ctx, &format!("c22-{}", n), each, p) {
            let t = g.spec.text();
            if seen.insert(t.clone()) {
                subs.push(Sub {
                    name: format!("{}-{}", n, g.name),
                    bytes: t.into_bytes(),
                    class: Some([g.ll1, g.lr0, g.lalr, g.lr1, true]),
                    lexer_ok: true,
                });
            }
        }
    }
    // a token tie in an otherwise good grammar
    for (i, (a, b)) in [("/[a-z]+/", "/[a-f]+/"), ("/x|y/", "/x/"), ("/a+/", "/aa|b/")].iter().enumerate() {
        let t = format!("token A = {};\ntoken B = {};\nprod s = A s B | B;\nentry s;\n", a, b);
        let spec_cfg = Spec {
            toks: vec![Tok::lit("A", "a"), Tok::lit("B", "b")],
            prods: vec![Prod { name: "s".into(), tag: None, pat: gen::pat("A s B | B") }],
            entry: "s".into(),
        };
        let g = classify("tie", &spec_cfg, Cfg::from_spec(&spec_cfg).unwrap()).unwrap();
        subs.push(Sub {
            name: format!("tie{}", i),
            bytes: t.into_bytes(),
            class: Some([g.ll1, g.lr0, g.lalr, g.lr1, true]),
            lexer_ok: false,
        });
    }
    let invalid: Vec<(&str, Vec<u8>)> = vec![
        ("syntax", b"token A = \"a\";\nprod s = A A\nentry s;\n".to_vec()),
        ("unknown-symbol", b"token A = \"a\";\nprod s = A B;\nentry s;\n".to_vec()),
        ("unknown-entry", b"token A = \"a\";\nprod s = A;\nentry t;\n".to_vec()),
        ("no-entry", b"token A = \"a\";\nprod s = A;\n".to_vec()),
        ("two-entries", b"token A = \"a\";\nprod s = A;\nentry s;\nentry s;\n".to_vec()),
        ("bad-regex", b"token A = /(a/;\nprod s = A;\nentry s;\n".to_vec()),
        ("empty", b"".to_vec()),
        ("not-utf8", b"token A = \"\xff\xfe\";\nprod s = A;\nentry s;\n".to_vec()),
        ("garbage", b"#!/bin/sh\necho hello\n".to_vec()),
        ("cut-string", b"token A = \"a;\nprod s = A;\nentry s;\n".to_vec()),
        ("cut-regex", b"token A = /a;\nprod s = A;\nentry s;\n".to_vec()),
        ("bad-precedence", b"token A [99999999999] = \"a\";\nprod s = A;\nentry s;\n".to_vec()),
    ];
    for (n, b) in invalid {
        subs.push(Sub { name: format!("invalid-{}", n), bytes: b, class: None, lexer_ok: true });
    }
    subs.push(Sub { name: "invalid-missing".into(), bytes: vec![], class: None, lexer_ok: true });
    subs.push(Sub { name: "invalid-directory".into(), bytes: vec![], class: None, lexer_ok: true });
    let mut jobs = Vec::new();
    for s in 0..subs.len() {
        for (l, a) in COMBOS {
            for o in 0..4 {
                jobs.push((s, l, a, o & 1 == 0, o & 2 != 0));
            }
        }
    }
    par_map(jobs.len(), |j| {
        if ctx.enough() {
            return;
        }
        let (si, l, a, lexer, table) = jobs[j];
        let sub = &subs[si];
        let mut rng = ctx.rng("c22-form", j as u64);
        let base = ctx.work.join(format!("j{}", j));
        for x in ["cwd", "home", "tmp", "elsewhere"] {
            fresh(&base.join(x));
            std::fs::write(base.join(x).join("bystander.txt"), "untouched").unwrap();
        }
        let cwd = base.join("cwd");
        let gpath = cwd.join("in.lapex");
        match sub.name.as_str() {
            "invalid-missing" => {}
            "invalid-directory" => std::fs::create_dir(&gpath).unwrap(),
            _ => std::fs::write(&gpath, &sub.bytes).unwrap(),
        }
        let form = rng.below(9);
        let (targ, tdir): (Option<String>, PathBuf) = match form {
            0 => (None, cwd.join("generated")),
            1 => (Some("out".into()), cwd.join("out")),
            2 => (Some("./out/".into()), cwd.join("out")),
            3 => (Some("sub/../out".into()), cwd.join("out")),
            4 => (Some(base.join("elsewhere/o").to_string_lossy().into_owned()), base.join("elsewhere/o")),
            5 => (Some("out put ü".into()), cwd.join("out put ü")),
            6 => (Some("../elsewhere/x/y".into()), base.join("elsewhere/x/y")),
            7 => (Some("lnk".into()), base.join("elsewhere/real")),
            _ => (Some(".".into()), cwd.clone()),
        };
        std::fs::create_dir_all(cwd.join("sub")).unwrap();
        std::fs::create_dir_all(&tdir).unwrap();
        if form == 7 {
            std::os::unix::fs::symlink(&tdir, cwd.join("lnk")).unwrap();
        }
        let old = rng.pct(30);
        let before_target: Files = if old {
            // outputs of some other grammar
            let all: Vec<&str> = match l {
                L::Rust => vec!["tokens.rs", "lexer.rs", "parser.rs", "table"],
                L::Cpp => vec!["tokens.h", "tokens.cpp", "lexer.h", "lexer.cpp", "parser.h", "parser.cpp", "parser_impl.h", "visitor.h", "table"],
            };
            for n in all {
                std::fs::write(tdir.join(n), format!("// older {}\n{}", n, "x\n".repeat(9000))).unwrap();
            }
            read_tree(&tdir)
        } else {
            read_tree(&tdir)
        };
        let before = read_tree(&base);
        let mut opts: Vec<Vec<String>> = vec![
            vec![rng.pick(&["-l", "--language"]).to_string(), lang_name(l).into()],
        ];
        if rng.pct(30) {
            opts[0] = vec![format!("--language={}", lang_name(l))];
        }
        // without the option the algorithm is LL(1)
        if a != A::Ll1 || rng.pct(50) {
            opts.push(match rng.below(4) {
                0 => vec![format!("-a{}", a.name())],
                1 => vec![format!("--algorithm={}", a.name())],
                2 => vec!["--algorithm".into(), a.name().into()],
                _ => vec!["-a".into(), a.name().into()],
            });
        }
        if !lexer {
            opts.push(vec!["--no-lexer".into()]);
        }
        if table {
            opts.push(vec!["--table".into()]);
        }
        if let Some(t) = &targ {
            opts.push(if rng.pct(50) { vec!["--target".into(), t.clone()] } else { vec![format!("--target={}", t)] });
        }
        opts.push(vec![if rng.pct(50) { "in.lapex".to_string() } else { gpath.to_string_lossy().into_owned() }]);
        rng.shuffle(&mut opts);
        let argv: Vec<String> = opts.into_iter().flatten().collect();
        let log = ctx.work.join(format!("log{}", j));
        let o = Run::new(&cli)
            .arg("generate")
            .args(&argv)
            .dir(&cwd)
            .env("HOME", &base.join("home").to_string_lossy())
            .env("TMPDIR", &base.join("tmp").to_string_lossy())
            .env("RUST_BACKTRACE", "0")
            .env("LD_PRELOAD", &shim.to_string_lossy())
            .env("LAPEXSHIM_LOG", &log.to_string_lossy())
            .timeout(60)
            .run()
            .expect("command line program");
        let logged = std::fs::read_to_string(&log).unwrap_or_default();
        let after = read_tree(&base);
        let got = read_tree(&tdir);
        ctx.evals(1);
        ctx.count(if o.code == Some(0) { "runs that succeeded" } else { "runs that refused" }, 1);
        ctx.count("opens for writing observed", logged.lines().filter(|x| x.starts_with("open\t")).count() as u64);
        ctx.distinct(mix(&[hash_bytes(&sub.bytes), hash_str(&sub.name), l as u64, a as u64, lexer as u64, table as u64, form as u64]));
        let text = String::from_utf8_lossy(&sub.bytes).into_owned();
        let report = |key: &str, title: &str, more: String| {
            ctx.violation(
                &format!("{}/{}/{}", key, lang_name(l), a.name()),
                title,
                format!(
                    "{}: generate {}\n{}\n{}\nstandard error: {}\ntarget holds {:?}\n{}",
                    sub.name,
                    argv.join(" "),
                    text,
                    o.describe(),
                    o.err_text(),
                    got.keys().collect::<Vec<_>>(),
                    more
                ),
            )
        };
        if o.timed_out {
            report("hang", "the program does not end", String::new());
            return;
        }
        // nothing outside the target
        let tcanon = tdir.canonicalize().unwrap_or(tdir.clone());
        let bad = outside(&logged, &tcanon);
        if !bad.is_empty() {
            report("outside", "something outside the target directory is touched", bad.join("\n"));
        }
        let inside = |k: &str| lexical(&base.join(k)).starts_with(&tdir);
        let strip = |m: &Files| -> Files { m.iter().filter(|(k, _)| !inside(k)).map(|(k, v)| (k.clone(), v.clone())).collect() };
        if strip(&before) != strip(&after) {
            report("around", "the surroundings of the target directory change", diff(&strip(&before), &strip(&after)));
        }
        // changed or new files in the target
        let changed: Files =
            got.iter().filter(|(k, v)| before_target.get(*k) != Some(*v)).map(|(k, v)| (k.clone(), v.clone())).collect();
        let gone: Vec<&String> = before_target.keys().filter(|k| !got.contains_key(*k)).collect();
        let set = file_set(l, a, lexer, table);
        let may = set.is_some() && sub.class.map(|c| c[idx(a)]).unwrap_or(false);
        // a tie only matters for the lexer
        let must = may && sub.lexer_ok;
        if o.code == Some(0) {
            match &set {
                None => report("unsupported", "success is reported for a combination that is not implemented", String::new()),
                Some(s) => {
                    let names: BTreeSet<String> = changed.keys().cloned().collect();
                    if names != *s {
                        report("set", "the files written are not those of the language, algorithm and options", format!("written: {:?}\nprescribed: {:?}", names, s));
                    }
                    if !may {
                        report("accepted", "success is reported for a grammar that is not acceptable", String::new());
                    } else if !sub.lexer_ok && lexer {
                        report("tie", "success is reported for token rules with a tie", String::new());
                    }
                    if !gone.is_empty() {
                        report("gone", "files in the target directory disappear", format!("{:?}", gone));
                    }
                    let (r, f) = reference(ctx, &format!("c22-{}", j), &text, l, a, lexer, table);
                    if !r.done() || complete(&tdir, &f).is_err() {
                        report("content", "the files are not those of the requested language and algorithm", format!("{}\n{}", r.text(), diff(&f, &got)));
                    }
                    // the same without --no-lexer and --table
                    let (r, f) = reference(ctx, &format!("c22b-{}", j), &text, l, a, true, !table);
                    if r.done() {
                        let common: Files = f.into_iter().filter(|(k, _)| names.contains(k)).collect();
                        ctx.count("files compared with a run with other options", common.len() as u64);
                        if let Err(e) = complete(&tdir, &common) {
                            report("interference", "--no-lexer or --table change other files", e);
                        }
                    }
                }
            }
        } else {
            if must {
                report("refused", "a grammar of the class is refused", String::new());
            }
            if strip_ansi(&o.err_text()).trim().is_empty() {
                report("mute", "a refusal prints nothing to standard error", String::new());
            }
            let parser: Vec<&String> = changed.keys().filter(|k| is_parser_file(k)).collect();
            if !parser.is_empty() {
                report("parser", "a parser is written although the run is refused", format!("{:?}", parser));
            }
            if !o.stdout.is_empty() && o.out_text().contains("rror") {
                report("stdout", "the diagnostic goes to standard output", o.out_text());
            }
            // each reported error is printed
            if let (Some(_), Some(1)) = (sub.class, o.code) {
                let d = ctx.work.join(format!("c22e-{}", j));
                fresh(&d);
                let r = generate(lexer, a, table, &gpath, &d, l);
                let _ = std::fs::remove_dir_all(&d);
                if let Gen::Errors(v) = r {
                    let shown: String = strip_ansi(&o.err_text()).split_whitespace().collect::<Vec<_>>().join(" ");
                    for e in v {
                        ctx.count("diagnostics compared", 1);
                        let want: Vec<String> = strip_ansi(&e)
                            .lines()
                            .filter(|x| !x.contains("in.lapex"))
                            .map(|x| x.split_whitespace().collect::<Vec<_>>().join(" "))
                            .filter(|x| !x.is_empty())
                            .collect();
                        if let Some(w) = want.iter().find(|w| !shown.contains(w.as_str())) {
                            report("diagnostic", "a reported error is not printed", w.clone());
                        }
                    }
                }
            }
        }
        if j % 397 == 11 {
            ctx.sample(|| format!("{}: generate {} -> {}, target holds {:?}", sub.name, argv.join(" "), o.describe(), got.keys().collect::<Vec<_>>()));
        }
        let _ = std::fs::remove_dir_all(&base);
        let _ = std::fs::remove_file(&log);
    });
    wrong_lines(ctx, &shim, &cli);
}

/// Command lines that mean nothing.
fn wrong_lines(ctx: &Ctx, shim: &Path, cli: &Path) {
    let lines: Vec<Vec<&str>> = vec![
        vec![],
        vec!["generate"],
        vec!["generate", "in.lapex"],
        vec!["generate", "in.lapex", "-l"],
        vec!["generate", "in.lapex", "-l", "java", "--target", "."],
        vec!["generate", "in.lapex", "-l", "rust", "-a", "lr2", "--target", "."],
        vec!["generate", "in.lapex", "-l", "rust", "-a", "lr1", "--tables", "--target", "."],
        vec!["generate", "in.lapex", "more.lapex", "-l", "rust", "-a", "lr1", "--target", "."],
        vec!["generate", "-l", "rust", "-a", "lr1", "--target", "."],
        vec!["generate", "in.lapex", "-a", "lr1", "--target", "."],
        vec!["generate", "in.lapex", "-l", "rust", "-l", "cpp", "-a", "lr1", "--target", "."],
        vec!["generate", "in.lapex", "-l", "rust", "-a", "lr1", "--target"],
        vec!["produce", "in.lapex", "-l", "rust", "-a", "lr1", "--target", "."],
        vec!["debug", "in.lapex"],
    ];
    for (i, v) in lines.iter().enumerate() {
        let d = ctx.work.join(format!("w{}", i));
        fresh(&d);
        std::fs::write(d.join("in.lapex"), "token A = \"a\";\nprod s = A;\nentry s;\n").unwrap();
        let before = read_tree(&d);
        let o = Run::new(cli)
            .args(v)
            .dir(&d)
            .env("LD_PRELOAD", &shim.to_string_lossy())
            .timeout(30)
            .run()
            .expect("command line program");
        ctx.evals(1);
        ctx.count("wrong command lines", 1);
        if o.code == Some(0) || o.err_text().trim().is_empty() || read_tree(&d) != before {
            ctx.violation(
                "usage",
                "a command line without meaning is not refused",
                format!("{:?}\n{}\n{}\n{}", v, o.describe(), o.err_text(), diff(&before, &read_tree(&d))),
            );
        }
        let _ = std::fs::remove_dir_all(&d);
    }
}
