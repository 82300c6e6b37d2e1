//! Generated code is handed to the compilers, with names chosen to get in its way.
use crate::cfg::Cfg;
use crate::ctx::Ctx;
use crate::e2e::*;
use crate::files::{file_set, lang_name};
use crate::front;
use crate::gen;
use crate::glue::*;
use crate::lexers;
use crate::model::*;
use crate::parsers::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::path::Path;

const POOL: [&str; 125] = [
    "fn", "match", "self", "Self", "crate", "type", "async", "dyn", "union", "impl", "where", "loop", "move", "ref", "super", "use", "mod",
    "pub", "unsafe", "box", "yield", "macro", "gen", "true", "None", "Some", "Ok", "Err", "Result", "Option", "Vec", "Box", "String",
    "class", "template", "operator", "new", "delete", "int", "namespace", "this", "NULL", "TRUE", "FALSE", "errno", "assert", "INT_MAX",
    "linux", "unix", "nullptr", "virtual", "auto", "typename", "co_await", "concept", "requires", "export", "module", "import", "xor",
    "and", "not", "alignas", "default", "case", "switch", "goto", "char8_t", "wchar_t", "signed", "stdin", "stdout", "EXIT_FAILURE",
    "Parser", "Visitor", "Lexer", "Terminal", "NonTerminal", "shift", "reduce", "accept", "Token", "TokenType", "Symbol", "StackSymbol",
    "Action", "EndOfFile_", "end_of_input", "token_function", "visitor", "state", "rule", "data", "T", "V", "F", "E", "anon", "anon_",
    "entry_", "tokens", "lexer", "parser", "std", "core", "vector", "pair", "main", "next", "span", "slice", "start", "end", "parse",
    "_", "__", "_x", "x_", "a__b", "a1b2c3", "_9", "ALLCAPS_NAME", "camelCaseName", "Mixed_Case_name9", "q0_1_2",
];

fn norm(n: &str) -> String {
    n.chars().filter(|c| *c != '_').map(|c| c.to_ascii_lowercase()).collect()
}

fn is_anon(n: &str) -> bool {
    let n = norm(n);
    n.strip_prefix("anon").map(|d| !d.is_empty() && d.chars().all(|c| c.is_ascii_digit())).unwrap_or(false)
}

fn legal(n: &str) -> bool {
    !["token", "entry", "prod"].contains(&n) && !["eof", "err"].contains(&norm(n).as_str()) && !is_anon(n)
}

/// What the mangling of a language keeps of a name.
fn key(n: &str, l: L) -> String {
    match l {
        L::Rust => camel(n),
        L::Cpp => n.to_ascii_uppercase(),
    }
}

fn fresh_name(rng: &mut Rng, used: &mut BTreeMap<String, String>, l: L) -> String {
    loop {
        let mut n = rng.pick(&POOL).to_string();
        let mut more = rng.below(8);
        if !used.is_empty() && rng.pct(35) {
            // next to another name
            let all: Vec<&String> = used.values().collect();
            n = rng.pick(&all).to_string();
            let seams: Vec<usize> = (0..=n.len()).filter(|k| *k == 0 || *k == n.len() || n.as_bytes()[*k] == b'_').collect();
            let k = if rng.pct(60) { *rng.pick(&seams) } else { rng.below(n.len() + 1) };
            if rng.pct(70) {
                more = 7;
            }
            match rng.below(4) {
                0 | 1 => n.insert(k, '_'),
                2 => n.insert(k, *rng.pick(&['0', '1', 'a', 'Z'])),
                _ => {
                    if let Some(u) = n.find('_') {
                        n.remove(u);
                    }
                }
            }
            if n.is_empty() || n.starts_with(|c: char| c.is_ascii_digit()) {
                continue;
            }
        }
        match more {
            0 => n = n.to_uppercase(),
            1 => n = format!("_{}", n),
            2 => n.push('_'),
            3 => {
                let _ = write!(n, "{}", rng.below(30));
            }
            4 => {
                let _ = write!(n, "_{}", rng.pick(&POOL));
            }
            5 => {
                let k = rng.range(20, 120);
                n.push_str(&"long_".repeat(k / 5));
            }
            _ => {}
        }
        let k = key(&n, l);
        if legal(&n) && !used.contains_key(&k) {
            used.insert(k, n.clone());
            return n;
        }
    }
}

/// The same grammar under other names; None if callbacks would be declared twice.
pub fn hostile(rng: &mut Rng, s: &Spec, l: L) -> Option<Spec> {
    let mut used = BTreeMap::new();
    let mut map: BTreeMap<String, String> = BTreeMap::new();
    // a name means one symbol, so tokens and productions share the names used
    for n in s.toks.iter().map(|t| t.name.clone()).chain(s.nt_names()) {
        let f = fresh_name(rng, &mut used, l);
        map.insert(n, f);
    }
    fn go(p: &Pat, m: &BTreeMap<String, String>) -> Pat {
        match p {
            Pat::Seq(v) => Pat::Seq(v.iter().map(|q| go(q, m)).collect()),
            Pat::Alt(v) => Pat::Alt(v.iter().map(|q| go(q, m)).collect()),
            Pat::Star(q) => Pat::Star(Box::new(go(q, m))),
            Pat::Plus(q) => Pat::Plus(Box::new(go(q, m))),
            Pat::Opt(q) => Pat::Opt(Box::new(go(q, m))),
            Pat::Ref(n) => Pat::Ref(m.get(n).cloned().unwrap_or(n.clone())),
            Pat::Eps => Pat::Eps,
        }
    }
    let mut tags = BTreeMap::new();
    let t = Spec {
        toks: s.toks.iter().map(|t| Tok { name: map[&t.name].clone(), prec: t.prec, pat: t.pat.clone() }).collect(),
        prods: s
            .prods
            .iter()
            .map(|p| Prod {
                name: map[&p.name].clone(),
                tag: if rng.pct(40) { Some(fresh_name(rng, &mut tags, l)) } else { None },
                pat: go(&p.pat, &map),
            })
            .collect(),
        entry: map[&s.entry].clone(),
    };
    distinct_names(&t, l).then_some(t)
}

/// Distinct under the name mangling, callbacks included.
pub fn distinct_names(s: &Spec, l: L) -> bool {
    let all_ok = s.toks.iter().map(|t| &t.name).chain(s.prods.iter().map(|p| &p.name)).all(|n| legal(n));
    let toks: BTreeSet<String> = s.toks.iter().map(|t| key(&t.name, l)).collect();
    let nts: BTreeSet<String> = s.nt_names().iter().map(|t| key(t, l)).collect();
    if !all_ok || toks.len() != s.toks.len() || nts.len() != s.nt_names().len() {
        return false;
    }
    match Info::of(&s.text(), &s.toks) {
        Ok(i) => {
            let a: BTreeSet<&String> = i.rules.iter().map(|r| &r.cb_rust).collect();
            let b: BTreeSet<&String> = i.rules.iter().map(|r| &r.cb_cpp).collect();
            a.len() == i.rules.len() && b.len() == i.rules.len()
        }
        Err(_) => false,
    }
}

pub fn c20(ctx: &'static Ctx) {
    ctx.describe(
        "grammars of every class under names that are keywords, macros, library names and the emitted code's own identifiers, with odd underscores, digits, lengths and tags, and with odd token texts; every language and algorithm that accepts them; the emitted files are compiled with visitors written from the documented names, run on a few inputs (so that a name stands for its symbol), and compiled as a project of their own (Rust editions 2018 to 2024, each C++ source and header alone, two translation units linked, two compilers); distinct by grammar and algorithm",
        &["rustc 1.99, clang 18 and gcc 13 decide what compiles", "names that collide after mangling, and C++ tokens named ERR or EOF, are outside the property"],
    );
    driven(ctx);
    standalone(ctx);
}

fn driven(ctx: &'static Ctx) {
    let want = ctx.scale(36, 240);
    for (kind, name) in [(Kind::RustParser, "rust"), (Kind::CppParser, "cpp")] {
        let mut gs: Vec<G> = grammars(ctx, &format!("c20-{}-lr", name), want, |g| g.lr1);
        if kind == Kind::RustParser {
            gs.extend(grammars(ctx, "c20-glr", want / 2, |g| g.tame));
        } else {
            gs.extend(grammars(ctx, "c20-ll", want / 2, |g| g.ll1));
        }
        let n_lr = want;
        let (lr, other) = gs.split_at(n_lr.min(gs.len()));
        let mut large = padded(ctx, "c20-lr", lr, &[280], |g| g.lr1);
        large.extend(padded(ctx, "c20-other", other, &[280], |g| if kind == Kind::RustParser { g.tame } else { g.ll1 }));
        let n_small = gs.len();
        gs.extend(large);
        let mut batch = Batch::new(ctx, &format!("c20{}", name), San::None);
        let mut of = Vec::new();
        let mut kept: Vec<G> = Vec::new();
        for (gi, g) in gs.into_iter().enumerate() {
            let mut rng = ctx.rng(&format!("c20-names-{}", name), gi as u64);
            // too many symbols for the hostile names
            let spec = match (0..10).find_map(|_| hostile(&mut rng, &g.spec, if kind == Kind::RustParser { L::Rust } else { L::Cpp })) {
                Some(s) => s,
                None if gi >= n_small => g.spec.clone(),
                None => continue,
            };
            let cfg = match Cfg::from_spec(&spec) {
                Some(c) => c,
                None => continue,
            };
            let a = if gi >= n_lr && gi != n_small {
                if kind == Kind::RustParser {
                    A::Glr
                } else {
                    A::Ll1
                }
            } else if g.lr0 && gi % 3 == 0 {
                A::Lr0
            } else if g.lalr && gi % 3 == 1 {
                A::Lalr
            } else {
                A::Lr1
            };
            let added = ctx.case(
                &format!("generate/{}/{}-{}/{}", name, g.name, gi, a.name()),
                || spec.text(),
                || batch.add(&g.name, &spec, cfg.clone(), a, kind),
            );
            if let Some(Some(_)) = added {
                of.push(kept.len());
                kept.push(G { spec, cfg, ..g });
            }
        }
        let st = Setup { want: 0, exhaustive: 40, sampled: 20, max_len: 10, long: 0, deep: 0 };
        let plan = fill(ctx, &format!("c20-{}", name), batch, of, &kept, &st);
        let ran = plan.batch.run(ctx, &plan.cases);
        broken_units(ctx, &plan.batch, &ran);
        each(ctx, &plan, &ran, |_, _, ex, o| check_language(ex, o));
    }
    // lexers under such names, every token recognised under its own
    let mut sets = lexers::tok_sets(ctx, "c20-lex", ctx.scale(24, 120));
    let mut batch = Batch::new(ctx, "c20lex", San::None);
    let mut cases = Vec::new();
    let mut want: Vec<i64> = Vec::new();
    for (i, (n, t, l)) in sets.iter_mut().enumerate() {
        let (s, _) = lexers::lexer_spec(t.clone());
        let mut rng = ctx.rng("c20-lexnames", i as u64);
        let kind = if i % 2 == 0 { Kind::RustLexer } else { Kind::CppLexer };
        let s = match (0..10).find_map(|_| hostile(&mut rng, &s, if kind == Kind::RustLexer { L::Rust } else { L::Cpp })) {
            Some(s) => s,
            None => continue,
        };
        let cfg = Cfg::from_spec(&s).unwrap();
        let added = ctx.case(
            &format!("lexer/{}-{}", n, i),
            || s.text(),
            || batch.add(n, &s, cfg, if kind == Kind::RustLexer { A::Lalr } else { A::Ll1 }, kind),
        );
        if let Some(Some(u)) = added {
            for tok in s.toks.iter() {
                let mut text = String::new();
                tok.rx().sample(&mut rng, &mut text);
                if text.is_empty() || text.contains('\u{0}') {
                    continue;
                }
                let chars: Vec<char> = text.chars().collect();
                let (end, lexed) = l.next(&chars, 0);
                if end != chars.len() {
                    continue;
                }
                if let crate::lexspec::Lexed::Tok(v) = lexed {
                    cases.push(Case::Lex(u, text.into_bytes(), 0));
                    want.push(v as i64);
                }
            }
        }
    }
    let ran = batch.run(ctx, &cases);
    broken_units(ctx, &batch, &ran);
    for (i, r) in ran.replies.iter().enumerate() {
        let u = &batch.units[cases[i].unit()];
        if let Reply::Lexed(v) = r {
            ctx.evals(1);
            let got = v.first().map(|c| c.tok).unwrap_or(-9);
            if got != want[i] {
                ctx.violation(
                    &format!("lexname/{:?}", u.kind),
                    "a lexed token arrives under another name",
                    format!("{}\n{:?}\ntoken {} instead of {}", u.describe(), cases[i], got, want[i]),
                );
            }
        }
    }
}

fn rust_main(spec: &Spec, info: &Info, a: A) -> String {
    let mut o = String::from("#![allow(warnings)]\nmod lexer;\nmod parser;\nmod tokens;\nuse lexer::Lexer;\nuse parser::Parser;\nuse tokens::TokenType;\n");
    o.push_str("struct MyVisitor;\nimpl parser::Visitor<usize> for MyVisitor {\n    fn shift(&mut self, token: TokenType, data: usize) {}\n");
    for r in &info.rules {
        let _ = writeln!(o, "    fn {}(&mut self) {{}}", r.cb_rust);
    }
    o.push_str("}\nfn name(t: TokenType) -> &'static str { match t { TokenType::EndOfFile => \"\",");
    for t in &spec.toks {
        let _ = write!(o, " TokenType::{} => \"{}\",", rust_token(&t.name), t.name);
    }
    o.push_str(" } }\n");
    if a == A::Glr {
        o.push_str(
            "#[derive(Debug)] struct DebugError; impl std::error::Error for DebugError {} impl std::fmt::Display for DebugError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, \"x\") } }
fn main() {
    let mut lex = Lexer::new(\"\");
    let mut par = Parser::new(|| { let tk = lex.next().unwrap(); let s = lex.slice().len() + lex.span().start; Ok::<(TokenType, usize), DebugError>((tk, s)) }, MyVisitor);
    par.parse().unwrap();
    let mut lex = Lexer::new(\"\");
    let mut dbg = Parser::new(|| { let tk = lex.next().unwrap(); name(tk); Ok::<(TokenType, ()), DebugError>((tk, ())) }, parser::DebugVisitor {});
    dbg.parse().unwrap();
}
",
        );
    } else {
        o.push_str(
            "fn main() {
    let mut lex = Lexer::new(\"\");
    let mut par = Parser::new(|| { let tk = lex.next().unwrap(); let s = lex.slice().len() + lex.span().start; name(tk); (tk, s) }, MyVisitor);
    par.parse().unwrap();
}
",
        );
    }
    o
}

fn cpp_main(spec: &Spec, info: &Info, a: A) -> String {
    let mut o = String::from("#include \"parser_impl.h\"\n#include \"lexer.h\"\n#include \"tokens.h\"\n#include <sstream>\n");
    o.push_str("struct Data { size_t start; size_t end; };\nclass MyVisitor : public parser::Visitor<Data> {\npublic:\n");
    if a == A::Ll1 {
        o.push_str("  void token(lexer::TokenType, Data) override {}\n");
        for n in info.nts.iter().flatten() {
            let _ = writeln!(o, "  void enter_{}() override {{}}\n  void exit_{}() override {{}}", n, n);
        }
    } else {
        o.push_str("  void shift(lexer::TokenType, Data) override {}\n");
        for r in &info.rules {
            let _ = writeln!(o, "  void {}() override {{}}", r.cb_cpp);
        }
    }
    o.push_str("};\nint other();\nint main() {\n  std::istringstream in(\"\");\n  lexer::Lexer lexer(in);\n  MyVisitor v;\n");
    o.push_str("  parser::Parser<Data> p([&]() { auto t = lexer.next(); return std::make_pair(t, Data{lexer.start(), lexer.end()}); }, v);\n");
    o.push_str("  unsigned n = 0;\n  for (auto t : {lexer::TokenType::TK_ERR, lexer::TokenType::TK_EOF");
    for t in &spec.toks {
        let _ = write!(o, ", lexer::TokenType::{}", cpp_token(&t.name));
    }
    o.push_str("}) n += lexer::get_token_name(t) != nullptr;\n  p.parse();\n  return other() + (n ? 0 : 1);\n}\n");
    o
}

fn cpp_other() -> String {
    "#include \"visitor.h\"\n#include \"parser.h\"\n#include \"parser_impl.h\"\n#include \"lexer.h\"\nint other() { return 0; }\n".to_string()
}

fn cut(s: &str) -> String {
    s.chars().take(3000).collect()
}

/// Compile one complete output directory as a project of its own; the compilers' complaints.
fn project(rng: &mut Rng, dir: &Path, spec: &Spec, info: &Info, l: L, a: A, ctx: &Ctx) -> Result<(), String> {
    match l {
        L::Rust => {
            std::fs::write(dir.join("main.rs"), rust_main(spec, info, a)).unwrap();
            let ed = *rng.pick(&["2018", "2021", "2024"]);
            let o = Run::new("rustc")
                .args(["--edition", ed, "--crate-type", "bin", "--emit=metadata", "--cap-lints", "allow", "-o"])
                .arg(dir.join("out.rmeta"))
                .arg(dir.join("main.rs"))
                .timeout(200)
                .run()
                .expect("rustc");
            ctx.count("Rust projects compiled", 1);
            if !o.ok() {
                return Err(format!("rustc, edition {}: {}\n{}", ed, o.describe(), cut(&o.err_text())));
            }
        }
        L::Cpp => {
            std::fs::write(dir.join("main.cpp"), cpp_main(spec, info, a)).unwrap();
            std::fs::write(dir.join("other.cpp"), cpp_other()).unwrap();
            let cc = *rng.pick(&["clang++", "g++"]);
            let std = *rng.pick(&["-std=c++17", "-std=c++20", "-std=gnu++17"]);
            if rng.pct(40) {
                // every header alone, from an empty translation unit
                for h in ["tokens.h", "lexer.h", "visitor.h", "parser.h", "parser_impl.h"] {
                    let src = dir.join(format!("alone_{}.cpp", h.replace('.', "_")));
                    std::fs::write(&src, format!("#include \"{}\"\n", h)).unwrap();
                    let o = Run::new(cc).args([std, "-w", "-fsyntax-only"]).arg(&src).timeout(200).run().expect("compiler");
                    ctx.count("C++ headers compiled alone", 1);
                    if !o.ok() {
                        return Err(format!("{} {} on {} alone: {}\n{}", cc, std, h, o.describe(), cut(&o.err_text())));
                    }
                    let _ = std::fs::remove_file(&src);
                }
            }
            let mut r = Run::new(cc).args([std, "-w", "-O0", "-o"]).arg(dir.join("prog"));
            for f in ["main.cpp", "other.cpp", "lexer.cpp", "tokens.cpp", "parser.cpp"] {
                r = r.arg(dir.join(f));
            }
            let o = r.timeout(300).run().expect("compiler");
            ctx.count("C++ projects compiled and linked", 1);
            if !o.ok() {
                return Err(format!("{} {}: {}\n{}", cc, std, o.describe(), cut(&o.err_text())));
            }
        }
    }
    Ok(())
}

fn standalone(ctx: &'static Ctx) {
    let n = ctx.scale(150, 1200);
    let budget = ctx.budget(75, 600);
    par_map(n, |i| {
        if ctx.over(budget) {
            ctx.count("projects left out for time", 1);
            return;
        }
        let mut rng = ctx.rng("c20-alone", i as u64);
        let (l, a) = [
            (L::Rust, A::Glr),
            (L::Cpp, A::Ll1),
            (L::Rust, A::Lalr),
            (L::Cpp, A::Lr1),
            (L::Rust, A::Glr),
            (L::Cpp, A::Lalr),
            (L::Rust, A::Lr0),
            (L::Cpp, A::Lr0),
            (L::Rust, A::Lr1),
        ][i % 9];
        // odd token texts with odd names, or a grammar of a class with a realistic lexer
        let spec = (0..40).find_map(|k| {
            let base = match (i + k) % 3 {
                0 => front::rich_spec(&mut rng),
                1 => {
                    let mut s = gen::any_spec(&mut rng);
                    let toks = lexers::curated_toks();
                    let t = rng.pick(&toks).1.clone();
                    for (a, b) in s.toks.iter_mut().zip(t) {
                        a.pat = b.pat;
                        a.prec = b.prec;
                    }
                    s
                }
                _ => rng.pick(&gen::curated()).1.clone(),
            };
            hostile(&mut rng, &base, l)
        });
        let spec = match spec {
            Some(s) => s,
            None => return,
        };
        let text = spec.text();
        let info = match Info::of(&text, &spec.toks) {
            Ok(x) => x,
            Err(_) => return,
        };
        let dir = ctx.work.join(format!("p{}", i));
        std::fs::create_dir_all(&dir).unwrap();
        let gpath = ctx.work.join(format!("p{}.lapex", i));
        std::fs::write(&gpath, &text).unwrap();
        // the first algorithm that takes the grammar
        let others: &[A] = if l == L::Rust { &[A::Glr] } else { &[A::Ll1, A::Lr1, A::Lalr, A::Lr0] };
        ctx.case(&format!("project/{}", i), || text.clone(), || {
            ctx.evals(1);
            for a in std::iter::once(a).chain(others.iter().copied()) {
                let _ = std::fs::remove_dir_all(&dir);
                std::fs::create_dir_all(&dir).unwrap();
                if generate(true, a, true, &gpath, &dir, l).done() {
                    finish(ctx, &mut rng, &dir, &spec, &info, l, a, &text);
                    return;
                }
            }
            ctx.count("grammars refused", 1);
        });
        let _ = std::fs::remove_dir_all(&dir);
        let _ = std::fs::remove_file(&gpath);
    });
}

#[allow(clippy::too_many_arguments)]
fn finish(ctx: &Ctx, rng: &mut Rng, dir: &Path, spec: &Spec, info: &Info, l: L, a: A, text: &str) {
    ctx.distinct(mix(&[hash_str(text), l as u64, a as u64]));
    let files = read_tree(dir);
    if let Some(want) = file_set(l, a, true, true) {
        if let Some(m) = want.iter().find(|n| !files.contains_key(*n)) {
            ctx.violation(
                &format!("missing/{}/{}", lang_name(l), a.name()),
                "generation reports success without one of its files",
                format!("{}\n{}", text, m),
            );
            return;
        }
    }
    if let Err(e) = project(rng, dir, spec, info, l, a, ctx) {
        ctx.violation(
            &format!("project/{}/{}", lang_name(l), a.name()),
            "a generated project does not compile",
            format!("{}, {}\n{}\n{}", lang_name(l), a.name(), text, e),
        );
    }
    ctx.sample(|| format!("{} {} compiled:\n{}", lang_name(l), a.name(), text));
}
