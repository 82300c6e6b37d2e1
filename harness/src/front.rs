//! Reading grammar files: declarations, positions, diagnostics, the two front ends, rewriting.
use crate::cfg::*;
use crate::ctx::Ctx;
use crate::gen;
use crate::gfile;
use crate::glue::*;
use crate::lexspec::LexSpec;
use crate::model::*;
use crate::rx;
use crate::util::*;
use lapex_input::{LapexInputParser, RuleSet, SourceSpan, TokenPattern};
use std::collections::HashSet;
use std::collections::BTreeSet;
use std::sync::Mutex;

// ------------------------------------------------------------------------ writing grammars

const STEMS: [&str; 28] = [
    "a", "B", "x1", "T0", "tok", "tokens", "token_", "entryway", "entry2", "prods", "prod_x", "produce", "EOF_TK", "A_B", "a__b",
    "Zz9", "q_", "if", "Self", "int", "self", "e", "error", "tokenprod", "proddy", "Entry", "PROD", "n0_1",
];

fn fresh_name(rng: &mut Rng, used: &mut BTreeSet<String>) -> String {
    loop {
        let mut n = rng.pick(&STEMS).to_string();
        if rng.pct(50) {
            n.push_str(rng.pick(&["1", "_2", "x", "Y", "_", "0a", "token", "__"]));
        }
        if rng.pct(6) {
            for _ in 0..rng.range(1, 60) {
                n.push(*rng.pick(&['a', 'Q', '_', '7']));
            }
        }
        if !["token", "entry", "prod"].contains(&n.as_str()) && used.insert(n.clone()) {
            return n;
        }
    }
}

fn odd_literal(rng: &mut Rng) -> String {
    let n = rng.range(1, 6);
    let mut s = String::new();
    for _ in 0..n {
        match rng.below(12) {
            0 => s.push_str(rng.pick(&["\\\\", "\\\"", "\\n", "\\/", "\\é", "\\\u{1f600}"])),
            1 => s.push(*rng.pick(&['é', 'ß', '日', '本', '\u{1f600}', '\u{2028}', '\u{85}', '\u{feff}', '\r', '\u{0}'])),
            2 => s.push(*rng.pick(&[';', '/', '|', '=', '(', ')', '[', ']', '?', '!', '*', '+', '\t', ' ', '\'', '~'])),
            3 => s.push_str(rng.pick(&["token", "entry", "prod", "; prod a = b;", "//", "/*"])),
            _ => s.push(*rng.pick(&['a', 'b', 'c', 'Z', '0', '9', '_', '.', ',', '-', '<', '>', '{', '}', '$', '^', '&', '#'])),
        }
    }
    s.replace('\u{0}', "0")
}

fn odd_rx(rng: &mut Rng) -> rx::Rx {
    loop {
        let r = if rng.pct(40) {
            gen::common_rx(rng)
        } else {
            let d = rng.range(0, 3);
            gen::random_rx(rng, d)
        };
        let t = r.print();
        if gen::rx_supported(&r) && !t.contains('\n') && !t.contains('\u{0}') && !t.is_empty() {
            return r;
        }
    }
}

/// A random grammar with names, tags, precedences and token texts of every legal sort.
pub fn rich_spec(rng: &mut Rng) -> Spec {
    let base = if rng.pct(50) { gen::random_spec(rng) } else { gen::any_spec(rng) };
    let mut used = BTreeSet::new();
    let tn: Vec<String> = base.toks.iter().map(|_| fresh_name(rng, &mut used)).collect();
    let old_nt = base.nt_names();
    let nn: Vec<String> = old_nt.iter().map(|_| fresh_name(rng, &mut used)).collect();
    let name = |o: &str| -> String {
        if let Some(i) = base.toks.iter().position(|t| t.name == o) {
            tn[i].clone()
        } else if let Some(i) = old_nt.iter().position(|n| n == o) {
            nn[i].clone()
        } else {
            o.to_string()
        }
    };
    fn map(p: &Pat, f: &dyn Fn(&str) -> String) -> Pat {
        match p {
            Pat::Seq(v) => Pat::Seq(v.iter().map(|q| map(q, f)).collect()),
            Pat::Alt(v) => Pat::Alt(v.iter().map(|q| map(q, f)).collect()),
            Pat::Star(q) => Pat::Star(Box::new(map(q, f))),
            Pat::Plus(q) => Pat::Plus(Box::new(map(q, f))),
            Pat::Opt(q) => Pat::Opt(Box::new(map(q, f))),
            Pat::Ref(n) => Pat::Ref(f(n)),
            Pat::Eps => Pat::Eps,
        }
    }
    let mut toks: Vec<Tok> = tn
        .iter()
        .map(|n| Tok {
            name: n.clone(),
            prec: if rng.pct(30) { Some(*rng.pick(&[0, 1, 2, 9, 10, 99, 100, 1000, 32767, 32768, 65534, 65535])) } else { None },
            pat: if rng.pct(50) { TokPat::Lit(odd_literal(rng)) } else { TokPat::Re(odd_rx(rng)) },
        })
        .collect();
    for _ in 0..rng.below(3) {
        let n = fresh_name(rng, &mut used);
        toks.push(Tok { name: n, prec: None, pat: TokPat::Re(odd_rx(rng)) });
    }
    let mut tags = BTreeSet::new();
    let prods = base
        .prods
        .iter()
        .map(|p| {
            let tag = if rng.pct(25) { Some(fresh_name(rng, &mut tags)) } else { None };
            let mut pat = map(&p.pat, &name);
            if rng.pct(15) {
                let extra = gen::random_pat(rng, base.toks.len(), 1, 4, 60);
                pat = Pat::Seq(vec![pat, map(&extra, &name)]);
            }
            Prod { name: name(&p.name), tag, pat }
        })
        .collect();
    let entry = name(&base.entry);
    let mut s = Spec { toks, prods, entry };
    // random_pat may refer to names that this grammar does not have
    let known: BTreeSet<String> = s.toks.iter().map(|t| t.name.clone()).chain(s.nt_names()).collect();
    let any = s.toks[0].name.clone();
    let fix = |n: &str| if known.contains(n) { n.to_string() } else { any.clone() };
    s.prods.iter_mut().for_each(|p| p.pat = map(&p.pat, &fix));
    s
}

// ------------------------------------------------------------------------ comparing rule sets

/// One rule as a comparable line; the pattern of a regex is given separately.
fn tok_line(name: &str, prec: Option<u16>, pat: &TokenPattern) -> String {
    match pat {
        TokenPattern::Literal { characters } => format!("token {} {:?} literal {:?}", name, prec, characters),
        TokenPattern::Pattern { pattern } => format!("token {} {:?} regex {:?}", name, prec, pattern),
    }
}

fn lines_of(rs: &RuleSet) -> Vec<String> {
    let mut v: Vec<String> = rs.token_rules.iter().map(|t| tok_line(t.inner.name, t.inner.precedence, &t.inner.pattern)).collect();
    v.extend(rs.production_rules.iter().map(|p| {
        format!("prod {} {:?} {:?}", p.inner.name, p.inner.tag, Pat::from_lapex(&p.inner.pattern).normal())
    }));
    v.push(format!("entry {}", rs.entry_rule.inner.name));
    v
}

/// What the front end makes of a regex standing alone; None: it refuses it.
fn alone(re: &str) -> Option<String> {
    let text = format!("token X = /{}/;\nentry e;\nprod e = X;\n", re);
    let rs = read_rules(&text).ok()?;
    match &rs.token_rules.first()?.inner.pattern {
        TokenPattern::Pattern { pattern } => Some(format!("{:?}", pattern)),
        _ => None,
    }
}

/// The declarations as our own reader sees them, in the form of `lines_of`.
/// Err: not a grammar text, or one the tool refuses for a documented reason.
fn own_lines(text: &str) -> Result<Vec<String>, String> {
    let ds = gfile::parse(text)?;
    let mut v = Vec::new();
    let mut entries = 0;
    for d in &ds {
        match &d.decl {
            gfile::Decl::Entry(n) => {
                entries += 1;
                v.push(format!("entry {}", n));
            }
            gfile::Decl::Tok { name, prec, pat } => {
                let p: Option<u16> = match prec {
                    Some(p) => Some(p.parse().map_err(|_| "precedence out of range".to_string())?),
                    None => None,
                };
                v.push(match pat {
                    gfile::TokText::Lit(s) => format!("token {} {:?} literal {:?}", name, p, s.chars().collect::<Vec<_>>()),
                    gfile::TokText::Re(s) => {
                        let a = alone(s).ok_or("refused regular expression".to_string())?;
                        format!("token {} {:?} regex {}", name, p, a)
                    }
                });
            }
            gfile::Decl::Prod { name, tag, pat } => v.push(format!("prod {} {:?} {:?}", name, tag.as_deref(), pat.normal())),
        }
    }
    if entries != 1 {
        return Err(format!("{} entry declarations", entries));
    }
    Ok(v)
}

fn spec_lines(s: &Spec) -> Vec<String> {
    let mut v = Vec::new();
    for t in &s.toks {
        let p = t.prec.map(|p| p as u16);
        v.push(match &t.pat {
            TokPat::Lit(x) => format!("token {} {:?} literal {:?}", t.name, p, x.chars().collect::<Vec<_>>()),
            _ => format!("token {} {:?} regex {}", t.name, p, alone(&t.pat_text()[1..t.pat_text().len() - 1]).unwrap_or("refused".into())),
        });
    }
    for p in &s.prods {
        v.push(format!("prod {} {:?} {:?}", p.name, p.tag.as_deref(), p.pat.normal()));
    }
    v.push(format!("entry {}", s.entry));
    v
}

fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}

fn first_difference(want: &[String], got: &[String]) -> String {
    let w: BTreeSet<&String> = want.iter().collect();
    let g: BTreeSet<&String> = got.iter().collect();
    let missing: Vec<String> = w.difference(&g).map(|s| s.to_string()).collect();
    let extra: Vec<String> = g.difference(&w).map(|s| s.to_string()).collect();
    format!("written, not delivered: {:#?}\ndelivered, not written: {:#?}\n{} written, {} delivered", missing, extra, want.len(), got.len())
}

fn mutilate(rng: &mut Rng, s: &Spec) -> String {
    if rng.pct(45) {
        // whole source tokens
        let mut ds: Vec<String> = decls(s).into_iter().flatten().collect();
        for _ in 0..rng.range(1, 3) {
            let i = rng.below(ds.len());
            match rng.below(5) {
                0 => {
                    if ds.len() > 1 {
                        ds.remove(i);
                    }
                }
                1 => {
                    let x = ds[i].clone();
                    ds.insert(i, x);
                }
                2 => {
                    let j = rng.below(ds.len());
                    ds.swap(i, j);
                }
                3 => {
                    let x = rng
                        .pick(&[
                            "token", "entry", "prod", "=", ";", "(", ")", "[", "]", "7", "0", "?", "!", "*", "+", "|", "x", "\"a\"", "/a/",
                        ])
                        .to_string();
                    ds.insert(i, x);
                }
                _ => {
                    let j = (i + 1) % ds.len();
                    ds.swap(i, j);
                }
            }
        }
        let mut o = String::new();
        for d in ds {
            if !o.is_empty() {
                o.push(*rng.pick(&[' ', '\n', ' ']));
            }
            o.push_str(&d);
        }
        o
    } else {
        let mut cs: Vec<char> = if rng.pct(50) { s.text() } else { s.random_layout(rng, true) }.chars().collect();
        for _ in 0..rng.range(1, 3) {
            if cs.is_empty() {
                break;
            }
            let i = rng.below(cs.len());
            match rng.below(6) {
                0 => {
                    cs.remove(i);
                }
                1 => {
                    let c = cs[i];
                    cs.insert(i, c);
                }
                2 => {
                    let c = *rng.pick(&[
                        ' ', '\n', '\t', ';', '=', '|', '(', ')', '[', ']', '?', '*', '+', '!', '"', '/', '\\', 'a', '0', '_', 'é', '\r', '.', '-', '#',
                    ]);
                    cs.insert(i, c);
                }
                3 => {
                    let j = rng.below(cs.len());
                    cs.swap(i, j);
                }
                4 => cs.truncate(i.max(1)),
                _ => {
                    cs[i] = *rng.pick(&['1', '0', 'x', ' ', '(', '/', '"', ';', '_', '\\']);
                }
            }
        }
        cs.into_iter().collect()
    }
}

pub fn c06(ctx: &'static Ctx) {
    ctx.describe(
        "random grammars with every legal sort of name, tag, precedence, literal, regex and pattern nesting, each written in several random layouts and orders: the rules delivered must be those generated; then mutilated texts (characters and whole source tokens deleted, doubled, swapped, inserted, cut off): what our own scanner and parser of grammar files read is delivered, what they refuse is refused; distinct by text",
        &["our hand-written grammar file reader", "a regex is compared through its denotation (random grammars) or through what the front end makes of it standing alone (mutilated texts)"],
    );
    let n = ctx.scale(6000, 120000);
    let budget = ctx.budget(25, 400);
    par_map(n, |i| {
        if ctx.over(budget) {
            return;
        }
        let mut rng = ctx.rng("c06", i as u64);
        let spec = rich_spec(&mut rng);
        let want = sorted(spec_lines(&spec));
        let canon = spec.text();
        let mut order: Option<Vec<String>> = None;
        for k in 0..5 {
            let shuffled = k >= 3;
            let text = if k == 0 { canon.clone() } else { spec.random_layout(&mut rng, shuffled) };
            let got = match ctx.case(&format!("c06/{}/{}", i, k), || text.clone(), || read_rules(&text).map(|rs| {
                // a denotation check of every regex that does not go through the front end's own reading
                let mut bad = None;
                for t in &rs.token_rules {
                    if let TokenPattern::Pattern { pattern } = &t.inner.pattern {
                        if k == 0 {
                            if let Some(tok) = spec.toks.iter().find(|x| x.name == t.inner.name) {
                                if let TokPat::Re(r) = &tok.pat {
                                    if let Some(Some(w)) = rx::difference(r, &rx::from_pattern(pattern), 150) {
                                        bad = Some(format!("token {}: {:?} belongs to only one of written and delivered pattern", tok.name, w));
                                    }
                                }
                            }
                        }
                    }
                }
                (lines_of(&rs), bad)
            })) {
                Some(g) => g,
                None => return,
            };
            ctx.evals(1);
            ctx.distinct(hash_str(&text));
            match got {
                Err(e) => ctx.violation("refused", "a well-formed grammar text is refused", format!("{}\n\nrefused with: {}", text, e)),
                Ok((l, bad)) => {
                    ctx.count("rules compared", l.len() as u64);
                    if let Some(b) = bad {
                        ctx.violation("regex", "a regular expression is read as another one", format!("{}\n\n{}", text, b));
                    }
                    let s = sorted(l.clone());
                    if s != want {
                        ctx.violation("rules", "the rules delivered are not those written", format!("{}\n\n{}", text, first_difference(&want, &s)));
                    }
                    if !shuffled {
                        match &order {
                            None => order = Some(l),
                            Some(o) if *o != l => ctx.violation("layout", "the layout changes what is delivered", format!("{}\n\nand\n\n{}", canon, text)),
                            _ => {}
                        }
                    }
                }
            }
            if i % 900 == 3 && k == 2 {
                ctx.sample(|| text.clone());
            }
        }
        // mutilated texts
        for k in 0..6 {
            let text = mutilate(&mut rng, &spec);
            if text.contains('\u{0}') {
                continue;
            }
            let got = match ctx.case(&format!("c06/{}/m{}", i, k), || text.clone(), || read_rules(&text).map(|rs| lines_of(&rs))) {
                Some(g) => g,
                None => return,
            };
            ctx.evals(1);
            ctx.distinct(hash_str(&text));
            match (own_lines(&text), got) {
                (Ok(w), Ok(g)) => {
                    ctx.count("mutilated texts read", 1);
                    let (w, g) = (sorted(w), sorted(g));
                    if w != g {
                        ctx.violation("misread", "a text is read as some other grammar", format!("{}\n\n{}", text, first_difference(&w, &g)));
                    }
                }
                (Err(_), Err(_)) => ctx.count("mutilated texts refused", 1),
                (Ok(_), Err(e)) => ctx.violation("mutilated-refused", "a well-formed grammar text is refused", format!("{}\n\nrefused with: {}", text, e)),
                (Err(w), Ok(g)) => {
                    ctx.violation("accepted", "a text that is no grammar is read as one", format!("{}\n\nour reader: {}\ndelivered: {:#?}", text, w, g))
                }
            }
        }
    });
}

// ------------------------------------------------------------------------ positions

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Spot {
    kind: u8,
    name: String,
    start: (usize, usize),
    end: (usize, usize),
    text: String,
}

fn spots(text: &str) -> Result<Vec<Spot>, String> {
    let mut v: Vec<Spot> = gfile::parse(text)?
        .iter()
        .map(|p| {
            let (kind, name) = match &p.decl {
                gfile::Decl::Entry(n) => (0, n),
                gfile::Decl::Tok { name, .. } => (1, name),
                gfile::Decl::Prod { name, .. } => (2, name),
            };
            Spot {
                kind,
                name: name.clone(),
                start: gfile::line_col(text, p.start),
                end: gfile::line_col(text, p.end),
                text: text[p.start..p.end].to_string(),
            }
        })
        .collect();
    v.sort();
    Ok(v)
}

fn got_spots(text: &str, rs: &RuleSet) -> Vec<Spot> {
    let spot = |kind: u8, name: &str, s: SourceSpan| Spot {
        kind,
        name: name.to_string(),
        start: (s.start.line as usize, s.start.col as usize),
        end: (s.end.line as usize, s.end.col as usize),
        text: s.substring(text).unwrap_or("<nothing>").to_string(),
    };
    let mut v = vec![spot(0, rs.entry_rule.inner.name, rs.entry_rule.span)];
    v.extend(rs.token_rules.iter().map(|t| spot(1, t.inner.name, t.span)));
    v.extend(rs.production_rules.iter().map(|t| spot(2, t.inner.name, t.span)));
    v.sort();
    v
}

#[derive(Debug, Clone)]
struct Section {
    line: usize,
    col: usize,
    text: String,
    rest: Vec<String>,
}

/// The quoted sections of a rendered error.
fn sections(e: &str) -> Result<Vec<Section>, String> {
    let e = strip_ansi(e);
    let mut out: Vec<Section> = Vec::new();
    let mut it = e.lines().skip(1).peekable();
    while let Some(l) = it.next() {
        let t = l.trim_start();
        let loc = match t.strip_prefix("-->") {
            Some(x) => x.trim(),
            None => continue,
        };
        let mut parts = loc.rsplitn(3, ':');
        let col = parts.next().and_then(|x| x.parse().ok()).ok_or(format!("location {:?}", loc))?;
        let line = parts.next().and_then(|x| x.parse().ok()).ok_or(format!("location {:?}", loc))?;
        let mut body = Vec::new();
        while let Some(n) = it.peek() {
            let b = match n.trim_start().strip_prefix('|') {
                Some(b) => b.strip_prefix("  ").unwrap_or(b).to_string(),
                None => break,
            };
            body.push(b);
            it.next();
        }
        let mark = body
            .iter()
            .position(|b| !b.is_empty() && b.chars().all(|c| c == '~'))
            .ok_or("no underline below the quoted rule".to_string())?;
        if mark < 2 {
            return Err("nothing quoted".into());
        }
        out.push(Section { line, col, text: body[1..mark].join("\n"), rest: body[mark + 1..].to_vec() });
    }
    Ok(out)
}

/// Names and numbers of made-up symbols are left open: `<anon>` in a rule shape.
fn shape(item: &str) -> String {
    item.replace('•', " ")
        .split_whitespace()
        .map(|w| {
            if w == "->" || w == "<eps>" {
                w.to_string()
            } else if w.starts_with("<anon>") {
                "<anon>".to_string()
            } else {
                match w.rsplit_once('(') {
                    Some((n, _)) => n.to_string(),
                    None => w.to_string(),
                }
            }
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// The plain rules one written production stands for, as shapes.
fn shapes_of(name: &str, pat: &Pat, spec: &Spec) -> BTreeSet<String> {
    let mut one = Spec { toks: spec.toks.clone(), prods: vec![Prod { name: name.into(), tag: None, pat: pat.clone() }], entry: name.into() };
    for n in spec.nt_names() {
        if n != name {
            one.prods.push(Prod { name: n, tag: None, pat: Pat::Eps });
        }
    }
    let names = one.nt_names();
    let cfg = match Cfg::from_spec(&one) {
        Some(c) => c,
        None => return BTreeSet::new(),
    };
    let show = |s: &S| match s {
        S::T(t) => spec.toks[*t as usize].name.clone(),
        S::N(n) => names.get(*n as usize).cloned().unwrap_or("<anon>".into()),
    };
    cfg.rules
        .iter()
        .filter(|r| r.lhs == 0 || r.lhs as usize >= names.len())
        .map(|r| {
            let rhs: Vec<String> = r.rhs.iter().map(show).collect();
            let rhs = if rhs.is_empty() { "<eps>".to_string() } else { rhs.join(" ") };
            format!("{} -> {}", show(&S::N(r.lhs)), rhs)
        })
        .collect()
}

/// A conflict-prone grammar or tied tokens, laid out at random with non-ASCII text around.
fn troubled(rng: &mut Rng, ties: bool) -> Spec {
    let mut s = if rng.pct(50) { gen::random_spec(rng) } else { gen::random_plain(rng) };
    s = gen::prune(&s);
    let mut used: BTreeSet<String> = s.toks.iter().map(|t| t.name.clone()).chain(s.nt_names()).collect();
    for t in s.toks.iter_mut() {
        t.pat = match rng.below(4) {
            0 => TokPat::Lit(format!("é{}", t.name)),
            1 => TokPat::Lit(format!("日本{}", t.name)),
            2 => TokPat::Lit(format!("\u{1f600}\t{}", t.name)),
            _ => TokPat::Lit(format!("<{}>", t.name)),
        };
    }
    for k in 0..rng.below(4) {
        let n = fresh_name(rng, &mut used);
        s.toks.push(Tok::lit(&n, &format!("ü{}", k)));
    }
    if ties {
        for k in 0..rng.range(1, 2) {
            let a = fresh_name(rng, &mut used);
            let b = fresh_name(rng, &mut used);
            let p = if rng.pct(40) { Some(rng.range(1, 50) as u32) } else { None };
            if rng.pct(35) {
                // several rules that share one text and go separate ways otherwise
                let common = ['\u{436}', '\u{444}'][k];
                let prec = p.or(if rng.pct(30) { Some(7) } else { None });
                let mut names = vec![a, b];
                for _ in 0..rng.below(3) {
                    names.push(fresh_name(rng, &mut used));
                }
                for name in names {
                    let own = *rng.pick(&['\u{430}', '\u{431}', '\u{432}', 'x', '7']);
                    let set = rx::Set::new(vec![(common as u32, common as u32), (own as u32, own as u32)]);
                    s.toks.push(Tok { name, prec, pat: TokPat::Re(rx::Rx::Set(set, format!("[{}{}]", common, own))) });
                }
                continue;
            }
            let (x, y) = match (rng.below(3), p) {
                (0, _) => (TokPat::Lit(format!("ñ{}", k)), TokPat::Lit(format!("ñ{}", k))),
                (1, Some(_)) => (TokPat::Lit(format!("ñ{}", k)), TokPat::Re(rx::Rx::lit(&format!("ñ{}", k)))),
                _ => (
                    TokPat::Re(rx::Rx::Rep(Box::new(rx::Rx::lit(["日", "é"][k])), 1, None)),
                    TokPat::Re(rx::Rx::Rep(Box::new(rx::Rx::lit(["日", "é"][k])), 1, Some(3))),
                ),
            };
            s.toks.push(Tok { name: a, prec: p, pat: x });
            s.toks.push(Tok { name: b, prec: p, pat: y });
        }
        rng.shuffle(&mut s.toks);
    }
    s
}

pub fn c07(ctx: &'static Ctx) {
    ctx.describe(
        "random grammars in random layouts (rules sharing a line, rules over many lines, tabs, non-ASCII literals and regexes, thousands of lines, very long lines): the span and the sliced text of every rule against positions our own reader computes; then grammars with token ties and with LR conflicts: every section of the rendered error must show the exact text and start of a rule that takes part in the reported problem; distinct by text",
        &["our hand-written grammar file reader", "a quoted production takes part in a conflict if rewriting that production alone yields the reported item"],
    );
    let n = ctx.scale(9000, 150000);
    let budget = ctx.budget(12, 200);
    par_map(n, |i| {
        if ctx.over(budget) {
            return;
        }
        let mut rng = ctx.rng("c07", i as u64);
        let spec = rich_spec(&mut rng);
        let mut text = spec.random_layout(&mut rng, true);
        if i % 300 == 5 {
            // far down, far to the right
            let lines = *rng.pick(&[254, 255, 256, 257, 4000, 32766, 65000]);
            let cols = *rng.pick(&[0, 250, 255, 256, 300, 32760, 60000]);
            text = format!("{}{}{}", "\n".repeat(lines), " ".repeat(cols), text);
            if text.lines().count() > 65530 || text.lines().any(|l| l.chars().count() > 65530) {
                return;
            }
        }
        if i % 100 == 7 {
            // rules behind very long names and literals on the same line
            let long = |rng: &mut Rng| -> String {
                let c = *rng.pick(&["a", "ä", "x1", "€", "_z", "\u{1F600}"]);
                c.repeat(*rng.pick(&[120, 127, 128, 200, 254, 255, 256, 257, 300, 700, 4000]))
            };
            let plain = |s: String| -> String { s.chars().map(|c| if c.is_ascii() { c } else { 'q' }).collect() };
            let a = long(&mut rng);
            let b = plain(long(&mut rng));
            text = match rng.below(4) {
                0 => format!("token LONG = \"{}\"; {}", a, text),
                1 => format!("token LONG = /{}/;{}", a, text),
                2 => format!("prod l{} = A; prod m = l{}; {}", b, b, text),
                _ => format!("token L{} = \"{}\"; {}", b, a, text),
            };
            ctx.count("texts with very long words", 1);
        }
        let want = match spots(&text) {
            Ok(w) => w,
            Err(_) => {
                ctx.count("texts our reader refuses", 1);
                return;
            }
        };
        let got = match ctx.case(&format!("c07/{}", i), || text.clone(), || read_rules(&text).map(|rs| got_spots(&text, &rs))) {
            Some(Ok(g)) => g,
            Some(Err(_)) => {
                ctx.count("texts refused", 1);
                return;
            }
            None => return,
        };
        ctx.evals(1);
        ctx.distinct(hash_str(&text));
        ctx.count("spans compared", got.len() as u64);
        if got != want {
            let d: Vec<String> = want.iter().zip(&got).filter(|(a, b)| a != b).map(|(a, b)| format!("{:?}\n  delivered {:?}", a, b)).collect();
            ctx.violation("span", "a source span does not cover exactly its rule", format!("{}\n\n{}", text.trim_start(), d.join("\n")));
        }
    });
    let n = ctx.scale(6000, 90000);
    let budget = ctx.budget(26, 420);
    par_map(n, |i| {
        if ctx.over(budget) {
            return;
        }
        let mut rng = ctx.rng("c07-err", i as u64);
        let ties = i % 2 == 0;
        let spec = troubled(&mut rng, ties);
        let mut text = spec.random_layout(&mut rng, true);
        if i % 200 == 6 {
            text = format!("{}{}{}", "\n".repeat(*rng.pick(&[255, 300, 1000])), " ".repeat(*rng.pick(&[0, 255, 700])), text);
        }
        let own = match gfile::parse(&text) {
            Ok(o) => o,
            Err(_) => return,
        };
        let alg = *rng.pick(&[A::Lr0, A::Lalr, A::Lr1]);
        if Cfg::from_spec(&spec).map(|c| c.rules.len() > 60).unwrap_or(true) {
            return;
        }
        let tied: Vec<Vec<usize>> = if ties {
            match LexSpec::new(&spec.toks, 300).and_then(|l| l.ties(4000)) {
                Some(t) => t.into_iter().map(|x| x.1).collect(),
                None => return,
            }
        } else {
            vec![]
        };
        let dir = ctx.work.join(format!("e{}", i));
        std::fs::create_dir_all(&dir).unwrap();
        let gp = dir.join("g.lapex");
        std::fs::write(&gp, &text).unwrap();
        let g = ctx.case(&format!("c07-err/{}", i), || text.clone(), || {
            let l = if i % 4 < 2 { L::Rust } else { L::Cpp };
            generate(ties, alg, false, &gp, &dir, l)
        });
        let _ = std::fs::remove_dir_all(&dir);
        let errs = match g {
            Some(Gen::Errors(v)) => v,
            Some(_) => return,
            None => return,
        };
        ctx.evals(1);
        ctx.distinct(hash_str(&text));
        for e in &errs {
            let plain = strip_ansi(e);
            let head = plain.lines().next().unwrap_or("").to_string();
            let full = |what: &str| format!("{}\n\n{}\n\n{}\n", what, text, plain);
            let secs = match sections(e) {
                Ok(s) => s,
                Err(x) => {
                    ctx.violation("unreadable", "the error message quotes no rule", full(&x));
                    continue;
                }
            };
            if secs.is_empty() {
                ctx.violation("empty", "the error message quotes no rule", full(""));
            }
            let mut named: BTreeSet<usize> = BTreeSet::new();
            for s in &secs {
                ctx.count(if ties { "tie sections compared" } else { "conflict sections compared" }, 1);
                let here = own.iter().find(|p| gfile::line_col(&text, p.start) == (s.line, s.col));
                let here = match here {
                    Some(h) => h,
                    None => {
                        ctx.violation("position", "the position in the error message is not that of a rule", full(&format!("{}:{}", s.line, s.col)));
                        continue;
                    }
                };
                if text[here.start..here.end] != s.text {
                    ctx.violation("quote", "the text in the error message is not the text of the rule at that position", full(&format!("{}:{} {:?}", s.line, s.col, s.text)));
                    continue;
                }
                let label = s.rest.iter().rposition(|l| l.trim_end().ends_with(':') || l.contains("Or reduce item"));
                let item = label.and_then(|k| s.rest.get(k + 1)).map(|x| x.trim().to_string()).unwrap_or_default();
                if head.contains("precedences") {
                    match &here.decl {
                        gfile::Decl::Tok { name, .. } => {
                            if *name != item {
                                ctx.violation("tie-name", "the error message names another token than it quotes", full(&format!("{:?} named, {:?} quoted", item, name)));
                            }
                            let k = spec.toks.iter().position(|t| t.name == *name).unwrap();
                            named.insert(k);
                            if !tied.iter().any(|t| t.contains(&k)) {
                                ctx.violation("tie-other", "the quoted token takes part in no tie", full(name));
                            }
                        }
                        _ => ctx.violation("tie-kind", "the error message on a token tie quotes a rule that is no token", full("")),
                    }
                } else {
                    match &here.decl {
                        gfile::Decl::Prod { name, pat, .. } => {
                            // the pseudo rule of the entry is shown without an arrow
                            let sh = shape(&item);
                            let entry = sh == spec.entry && *name == spec.entry;
                            if !entry && !shapes_of(name, pat, &spec).contains(&sh) {
                                ctx.violation(
                                    "conflict-other",
                                    "the quoted production does not take part in the reported conflict",
                                    full(&format!("item {:?}, quoted {:?}, which stands for {:#?}", item, s.text, shapes_of(name, pat, &spec))),
                                );
                            }
                        }
                        _ => ctx.violation("conflict-kind", "the error message on a conflict quotes a rule that is no production", full("")),
                    }
                }
            }
            if head.contains("precedences") && !tied.iter().any(|t| named.iter().filter(|k| t.contains(k)).count() > 1) {
                ctx.violation("tie-set", "the quoted tokens are not tied with each other", full(""));
            }
            if i % 700 == 10 {
                ctx.sample(|| plain.clone());
            }
        }
    });
}

// ------------------------------------------------------------------------ the two front ends

fn common_name(rng: &mut Rng, used: &mut BTreeSet<String>) -> String {
    loop {
        let mut n = rng
            .pick(&["a", "b", "List", "EXPR", "term", "tokenizer", "entries", "product", "x_y", "A_", "Sum", "q", "Token", "PROD", "en", "tok"])
            .to_string();
        for _ in 0..rng.below(3) {
            n.push(*rng.pick(&['a', 'z', '_', 'Q', 'E']));
        }
        if !["token", "entry", "prod"].contains(&n.as_str()) && used.insert(n.clone()) {
            return n;
        }
    }
}

const PLAIN: &[char] = &[
    'a', 'b', 'c', 'x', 'y', 'z', 'A', 'M', 'Z', '0', '1', '9', '_', ',', ';', ':', '<', '>', '=', '%', '@', '\'', '`', '!', '"', '#', ' ',
];

fn common_char(rng: &mut Rng) -> String {
    match rng.below(12) {
        0 => rng.pick(&["\\n", "\\t", "\\r", "\\\\", "\\/"]).to_string(),
        1 => rng.pick(&["\\u{0041}", "\\u{00e9}", "\\u{65e5}", "\\u{1f600}", "\\u{10ffff}", "\\u{0000a}"]).to_string(),
        _ => rng.pick(PLAIN).to_string(),
    }
}

fn common_element(rng: &mut Rng, depth: usize) -> String {
    match rng.below(if depth == 0 { 8 } else { 11 }) {
        0..=4 => common_char(rng),
        5 => ".".into(),
        6 | 7 => {
            let mut s = String::from("[");
            if rng.pct(30) {
                s.push('^');
            }
            for _ in 0..rng.range(1, 3) {
                match rng.below(4) {
                    0 => s.push_str(rng.pick(&["a-z", "A-Z", "0-9", "a-f", "x-x", "0-1", " -~", "a-\\u{00ff}"])),
                    1 => s.push_str(rng.pick(&["\\n", "\\t", "\\\\", "\\/", "\\u{00e9}"])),
                    _ => s.push(*rng.pick(PLAIN)),
                }
            }
            s.push(']');
            s
        }
        _ => {
            let n = rng.range(1, 3);
            let v: Vec<String> = (0..n).map(|_| common_seq(rng, depth - 1)).collect();
            format!("({})", v.join("|"))
        }
    }
}

fn common_seq(rng: &mut Rng, depth: usize) -> String {
    let mut s = String::new();
    for _ in 0..rng.range(1, 3) {
        s.push_str(&common_element(rng, depth));
        if rng.pct(30) {
            s.push_str(rng.pick(&["*", "+", "?"]));
        }
    }
    s
}

fn common_pat(rng: &mut Rng, names: &[String], depth: usize) -> String {
    let n = rng.range(1, 3);
    let mut v = Vec::new();
    for _ in 0..n {
        let mut e = if depth > 0 && rng.pct(35) {
            let k = rng.range(1, 3);
            let alts: Vec<String> = (0..k).map(|_| common_pat(rng, names, depth - 1)).collect();
            format!("({})", alts.join(" | "))
        } else {
            rng.pick(names).clone()
        };
        if rng.pct(30) {
            e.push_str(rng.pick(&["*", "+", "?"]));
        }
        v.push(e);
    }
    let gap = if rng.pct(15) { "  " } else { " " };
    v.join(gap)
}

/// A grammar text in the dialect both front ends read.
fn common_text(rng: &mut Rng) -> String {
    let mut used = BTreeSet::new();
    let toks: Vec<String> = (0..rng.range(1, 4)).map(|_| common_name(rng, &mut used)).collect();
    let nts: Vec<String> = (0..rng.range(1, 3)).map(|_| common_name(rng, &mut used)).collect();
    let names: Vec<String> = toks.iter().chain(&nts).cloned().collect();
    let sp = |rng: &mut Rng| rng.pick(&[" ", " ", " ", "  ", "\t", " \t "]).to_string();
    let mut rules = Vec::new();
    for t in &toks {
        let pat = if rng.pct(40) {
            let mut s = String::new();
            for _ in 0..rng.range(1, 4) {
                let c = match rng.below(14) {
                    0 => "\\n".to_string(),
                    1 => "\\\\".to_string(),
                    2 => "\\t".to_string(),
                    3 => rng.pick(&["/", "|", "(", ")", "[", "]", "?", "*", "+", "{", "}", "$", "^", "-", ".", "&", "~"]).to_string(),
                    _ => rng.pick(PLAIN).to_string(),
                };
                if c != "\"" {
                    s.push_str(&c);
                }
            }
            if s.is_empty() {
                s.push('k');
            }
            format!("\"{}\"", s)
        } else {
            format!("/{}/", common_seq(rng, 2))
        };
        rules.push(format!("token{}{}{}={}{};", sp(rng), t, sp(rng), sp(rng), pat));
    }
    for n in &nts {
        for _ in 0..rng.range(1, 3) {
            let pat = common_pat(rng, &names, 2);
            rules.push(format!("prod{}{}{}={}{};", sp(rng), n, sp(rng), sp(rng), pat));
        }
    }
    rules.push(format!("entry{}{};", sp(rng), nts[0]));
    rng.shuffle(&mut rules);
    let mut o = String::new();
    if rng.pct(20) {
        o.push_str("\n \t");
    }
    for (i, r) in rules.iter().enumerate() {
        if i > 0 {
            o.push_str(rng.pick(&["\n", "\n\n", " ", "\n\t", " \n "]));
        }
        o.push_str(r);
    }
    if rng.pct(70) {
        o.push('\n');
    }
    o
}

fn boot_rules(text: &str) -> Result<RuleSet<'_>, String> {
    match guard(|| lapex_input_bootstrap::BootstrapLapexInputParser {}.parse_lapex(text).map_err(|e| format!("{:?}", e))) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

/// Differences between two rule sets, up to order and up to the way regexes are represented.
fn compare_sets(a: &RuleSet, b: &RuleSet) -> Option<(String, String)> {
    if a.entry_rule.inner.name != b.entry_rule.inner.name {
        return Some(("entry".into(), format!("entry {} and {}", a.entry_rule.inner.name, b.entry_rule.inner.name)));
    }
    let prods = |r: &RuleSet| {
        sorted(
            r.production_rules
                .iter()
                .map(|p| format!("prod {} {:?} {:?}", p.inner.name, p.inner.tag, Pat::from_lapex(&p.inner.pattern).normal()))
                .collect(),
        )
    };
    let (pa, pb) = (prods(a), prods(b));
    if pa != pb {
        return Some(("productions".into(), first_difference(&pa, &pb)));
    }
    let names = |r: &RuleSet| sorted(r.token_rules.iter().map(|t| t.inner.name.to_string()).collect());
    if names(a) != names(b) {
        return Some(("tokens".into(), format!("tokens {:?} and {:?}", names(a), names(b))));
    }
    let meaning = |p: &TokenPattern| match p {
        TokenPattern::Literal { characters } => rx::Rx::lit(&characters.iter().collect::<String>()),
        TokenPattern::Pattern { pattern } => rx::from_pattern(pattern),
    };
    for t in &a.token_rules {
        let u = b.token_rules.iter().find(|u| u.inner.name == t.inner.name).unwrap();
        let (x, y) = (meaning(&t.inner.pattern), meaning(&u.inner.pattern));
        if let Some(Some(w)) = rx::difference(&x, &y, 200) {
            return Some(("pattern".into(), format!("token {}: only one of the two patterns matches {:?}", t.inner.name, w)));
        }
        if t.inner.precedence() != u.inner.precedence() {
            return Some((
                "precedence".into(),
                format!("token {}: precedence {} and {}", t.inner.name, t.inner.precedence(), u.inner.precedence()),
            ));
        }
    }
    None
}

pub fn c08(ctx: &'static Ctx) {
    ctx.describe(
        "random grammar texts in the common dialect of both front ends (plus the grammar of grammar files and the examples): tokens, productions and entry delivered by both must agree, patterns by their exact denotation, precedences by value; distinct by text",
        &["the common dialect: names of letters and underscores, no tags, precedences or empty patterns, one blank around '=' and '|', regex escapes \\n \\t \\r \\\\ \\/ \\u{...} only"],
    );
    let mut fixed: Vec<(String, String)> = Vec::new();
    for d in ["/repo/example", "/repo/lapex-input-gen/src"] {
        if let Ok(rd) = std::fs::read_dir(d) {
            for e in rd.flatten() {
                let p = e.path();
                if p.extension().map(|x| x == "lapex").unwrap_or(false) {
                    if let Ok(t) = std::fs::read_to_string(&p) {
                        fixed.push((p.to_string_lossy().into_owned(), t));
                    }
                }
            }
        }
    }
    let n = ctx.scale(30000, 400000);
    let budget = ctx.budget(25, 400);
    let both = Mutex::new(0usize);
    par_map(fixed.len() + n, |i| {
        if ctx.over(budget) {
            return;
        }
        let (name, text) = if i < fixed.len() {
            fixed[i].clone()
        } else {
            let mut rng = ctx.rng("c08", i as u64);
            (format!("random{}", i), common_text(&mut rng))
        };
        let r = ctx.case(&format!("c08/{}", name), || text.clone(), || {
            let a = boot_rules(&text);
            let b = read_rules(&text);
            match (&a, &b) {
                (Ok(x), Ok(y)) => Ok(compare_sets(x, y)),
                (Err(e), Err(_)) => Err((false, e.clone())),
                (Err(e), _) => Err((true, format!("the bootstrap front end refuses it: {}", e))),
                (_, Err(e)) => Err((true, format!("the generated front end refuses it: {}", e))),
            }
        });
        ctx.evals(1);
        ctx.distinct(hash_str(&text));
        match r {
            None => {}
            Some(Ok(None)) => {
                *both.lock().unwrap() += 1;
                ctx.count("texts read alike", 1);
                if i % 5000 == 17 {
                    ctx.sample(|| text.clone());
                }
            }
            Some(Ok(Some((k, d)))) => ctx.violation(&k, "the two front ends read a grammar differently", format!("{}\n\n{}", text, d)),
            Some(Err((true, e))) => {
                if i < fixed.len() {
                    ctx.count("example files outside the common dialect", 1);
                } else {
                    ctx.violation("one-refuses", "one front end refuses what the other reads", format!("{}\n\n{}", text, e));
                }
            }
            Some(Err((false, _))) => ctx.count("texts both refuse", 1),
        }
    });
}

// ------------------------------------------------------------------------ rewriting

/// Rule sets with about as many tokens, productions or anonymous parts as there are symbol numbers:
/// each name keeps a symbol of its own, or the rule set is refused.
fn counts(ctx: &'static Ctx) {
    let cases: Vec<(&str, usize)> = ["tokens", "productions", "parts"]
        .into_iter()
        .flat_map(|k| [255usize, 256, 257, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65600, 131073].map(|n| (k, n)))
        .collect();
    par_map(cases.len(), |i| {
        let (kind, n) = cases[i];
        let (nt, np, na) = match kind {
            "tokens" => (n, 1, 0),
            "productions" => (1, n, 0),
            _ => (1, 1, n),
        };
        let at = |j: usize, n: usize| (j * 7919 + 13) % n;
        let tok: Vec<String> = (0..nt).map(|j| format!("T{}", j)).collect();
        let pro: Vec<String> = (0..np).map(|j| format!("p{}", j)).collect();
        let name = |s: &str| lapex_input::ProductionPattern::Rule { rule_name: unsafe { &*(s as *const str) } };
        // production j is one token, then one production, both given by a fixed scattering
        let tokens = tok
            .iter()
            .map(|t| lapex_input::Spanned::zero(lapex_input::TokenRule { name: t.as_str(), precedence: None, pattern: lapex_input::TokenPattern::Literal { characters: t.chars().collect() } }))
            .collect();
        let prods = (0..np)
            .map(|j| {
                let mut elements = vec![name(&tok[at(j, nt)]), name(&pro[at(j, np)])];
                if nt > 1 {
                    elements.extend((0..nt).map(|k| name(&tok[k])));
                }
                elements.extend((0..na).map(|k| lapex_input::ProductionPattern::Optional { inner: Box::new(if k % 2 == 0 { name(&tok[0]) } else { name(&pro[0]) }) }));
                lapex_input::Spanned::zero(lapex_input::ProductionRule { name: pro[j].as_str(), tag: None, pattern: lapex_input::ProductionPattern::Sequence { elements } })
            })
            .collect();
        let set = lapex_input::RuleSet::new(lapex_input::Spanned::zero(lapex_input::EntryRule { name: pro[0].as_str() }), tokens, prods);
        ctx.case(&format!("counts/{}-{}", kind, n), || format!("{} {}", n, kind), || {
            let g = match guard(|| lapex_parser::grammar::Grammar::from_rule_set(&set).map_err(|e| e.to_string())) {
                Ok(Ok(g)) => g,
                _ => {
                    ctx.count("rule sets with too many symbols, refused", 1);
                    if n < 65000 {
                        ctx.violation(&format!("counts-refused-{}", kind), "a rule set with few enough symbols is refused", format!("{} {}", n, kind));
                    }
                    return;
                }
            };
            ctx.count("rule sets with many symbols, read", 1);
            let mut wrong = None;
            let syms: HashSet<_> = g.symbols().collect();
            if g.symbols().count() != syms.len() || syms.len() < nt + np + na {
                wrong = Some(format!("{} symbols for {} tokens, {} productions and {} anonymous parts", syms.len(), nt, np, na));
            }
            let text = |s: &lapex_parser::grammar::Symbol| g.get_symbol_name(s).split('(').next().unwrap_or("").to_string();
            for r in g.rules() {
                let l = text(&r.lhs().unwrap());
                let Some(j) = l.strip_prefix('p').and_then(|x| x.parse::<usize>().ok()) else { continue };
                let mut want = vec![tok[at(j, nt)].clone(), pro[at(j, np)].clone()];
                if nt > 1 {
                    want.extend(tok.iter().cloned());
                }
                let have: Vec<String> = r.rhs().iter().take(want.len()).map(text).collect();
                let anon: HashSet<_> = r.rhs().iter().skip(want.len()).collect();
                if have != want || anon.len() != na || r.rhs().len() != want.len() + na {
                    let at = (0..want.len()).find(|k| have.get(*k) != want.get(*k));
                    wrong.get_or_insert(format!("production {} is rewritten with other symbols: {:?}", l, at.map(|k| (k, want.get(k), have.get(k)))));
                }
            }
            if g.rules().len() != np + 2 * na {
                wrong.get_or_insert(format!("{} rules", g.rules().len()));
            }
            if let Some(w) = wrong {
                ctx.violation(&format!("counts-{}", kind), "names of a large rule set share a symbol", format!("{} {}: {}", n, kind, w));
            }
        });
        ctx.evals(1);
        ctx.distinct(mix(&[hash_str(kind), n as u64]));
    });
}

pub fn c09(ctx: &'static Ctx) {
    ctx.describe(
        "curated and random grammars, unreachable, unproductive, cyclic and ambiguous ones included: the token sequences up to a length that the derived plain rules generate, for every named production, against the meaning of the written patterns computed directly as sets; then the same grammars with an undeclared name, a second declaration of a token, a token and a production of one name, or a bad entry, all of which must be refused; distinct by grammar",
        &["languages are compared up to length 3 to 8, as far as they stay below some thousand sequences"],
    );
    counts(ctx);
    let cur = gen::curated();
    let n = ctx.scale(25000, 300000);
    let budget = ctx.budget(28, 420);
    par_map(cur.len() + n, |i| {
        if ctx.over(budget) {
            return;
        }
        let mut rng = ctx.rng("c09", i as u64);
        let spec = if i < cur.len() {
            cur[i].1.clone()
        } else if rng.pct(25) {
            rich_spec(&mut rng)
        } else if rng.pct(70) {
            gen::random_spec(&mut rng)
        } else {
            gen::any_spec(&mut rng)
        };
        let text = spec.text();
        let info = match ctx.case(&format!("c09/{}", i), || text.clone(), || Info::of(&text, &spec.toks)) {
            Some(x) => x,
            None => return,
        };
        ctx.evals(1);
        ctx.distinct(hash_str(&text));
        match info {
            Err(e) => {
                ctx.violation("refused", "a well-formed grammar is refused", format!("{}\n\n{}", text, e));
            }
            Ok(info) => {
                let icfg = info.cfg(spec.toks.len());
                let mut best = None;
                let cap = if i % 50 == 1 { 6000 } else { 700 };
                for len in if i % 50 == 1 { [8, 7, 6, 5] } else { [6, 5, 4, 3] } {
                    if let (Some(a), Some(b)) = (languages(&spec, len, cap), icfg.languages(len, cap)) {
                        best = Some((len, a, b));
                        break;
                    }
                }
                let (len, a, b) = match best {
                    Some(x) => x,
                    None => {
                        ctx.count("languages too big to compare", 1);
                        return;
                    }
                };
                for (name, want) in &a {
                    let k = match info.nts.iter().position(|n| n.as_deref() == Some(name)) {
                        Some(k) => k,
                        None => {
                            ctx.violation("missing", "a named production is missing from the derived grammar", format!("{}\n\n{}", text, name));
                            continue;
                        }
                    };
                    ctx.count("sequences compared", want.len() as u64);
                    if *want != b[k] {
                        let show = |w: &Vec<u8>| w.iter().map(|t| spec.toks[*t as usize].name.clone()).collect::<Vec<_>>().join(" ");
                        let lost: Vec<String> = want.difference(&b[k]).take(3).map(show).collect();
                        let more: Vec<String> = b[k].difference(want).take(3).map(show).collect();
                        ctx.violation(
                            "language",
                            "the derived rules generate another language",
                            format!(
                                "{}\n\nproduction {}, up to length {}\nnot generated: {:?}\ngenerated in addition: {:?}\nrules:\n{}",
                                text,
                                name,
                                len,
                                lost,
                                more,
                                info.rules.iter().map(|r| r.display.clone()).collect::<Vec<_>>().join("\n")
                            ),
                        );
                    }
                }
                if info.nts.get(info.entry as usize).and_then(|n| n.as_deref()) != Some(spec.entry.as_str()) {
                    ctx.violation("entry", "the entry of the derived grammar is another production", text.clone());
                }
                if i % 4000 == 9 {
                    ctx.sample(|| format!("{}\nderived:\n{}", text, info.rules.iter().map(|r| r.display.clone()).collect::<Vec<_>>().join("\n")));
                }
            }
        }
        // broken variants
        if i % 3 != 0 {
            return;
        }
        let mut bad = spec.clone();
        let what = match rng.below(6) {
            0 => {
                // an undeclared name somewhere inside a pattern
                let k = rng.below(bad.prods.len());
                let mut left = rng.below(bad.prods[k].pat.size());
                if !poison(&mut bad.prods[k].pat, &mut left) {
                    bad.prods[k].pat = Pat::Seq(vec![bad.prods[k].pat.clone(), r("nowhere_x")]);
                }
                "undeclared name"
            }
            1 => {
                let mut t = rng.pick(&bad.toks).clone();
                if rng.pct(50) {
                    t.pat = TokPat::Lit("zzz9".into());
                }
                let at = rng.below(bad.toks.len() + 1);
                bad.toks.insert(at, t);
                "token declared twice"
            }
            2 => {
                let n = rng.pick(&bad.prods).name.clone();
                let at = rng.below(bad.toks.len() + 1);
                bad.toks.insert(at, Tok::lit(&n, "zzz9"));
                "token and production of one name"
            }
            3 => {
                let n = rng.pick(&bad.toks).name.clone();
                let at = rng.below(bad.prods.len() + 1);
                bad.prods.insert(at, Prod { name: n, tag: None, pat: Pat::Eps });
                "production named like a token"
            }
            4 => {
                bad.entry = "nowhere_x".into();
                "undeclared entry"
            }
            _ => {
                bad.entry = bad.toks[0].name.clone();
                "entry is a token"
            }
        };
        let text = if rng.pct(50) { bad.text() } else { bad.random_layout(&mut rng, true) };
        let refused = ctx.case(&format!("c09/{}/bad", i), || text.clone(), || {
            let rs = match read_rules(&text) {
                Ok(r) => r,
                Err(_) => return true,
            };
            guard(|| lapex_parser::grammar::Grammar::from_rule_set(&rs).is_err()).unwrap_or(true)
        });
        ctx.evals(1);
        ctx.count(&format!("refusals examined: {}", what), 1);
        if refused == Some(false) {
            ctx.violation(&format!("accepted/{}", what), &format!("a grammar is accepted despite: {}", what), text.clone());
        }
    });
}

fn poison(p: &mut Pat, left: &mut usize) -> bool {
    match p {
        Pat::Ref(n) => {
            if *left == 0 {
                *n = "nowhere_x".into();
                return true;
            }
            *left -= 1;
            false
        }
        Pat::Seq(v) | Pat::Alt(v) => v.iter_mut().any(|q| poison(q, left)),
        Pat::Star(q) | Pat::Plus(q) | Pat::Opt(q) => poison(q, left),
        Pat::Eps => false,
    }
}
