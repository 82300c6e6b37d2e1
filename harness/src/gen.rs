//! Random grammars and token rules, and a list of realistic ones.
use crate::cfg::*;
use crate::model::*;
use crate::rx::{Rx, Set};
use crate::util::Rng;

pub const TNAMES: [&str; 6] = ["A", "B", "C", "D", "E", "F"];
pub const NNAMES: [&str; 6] = ["s", "t", "u", "v", "w", "x"];

fn toks(n: usize) -> Vec<Tok> {
    (0..n).map(|i| Tok::lit(TNAMES[i], &TNAMES[i].to_lowercase())).collect()
}

fn leaf(rng: &mut Rng, nt: usize, nn: usize, tpct: usize) -> Pat {
    if rng.pct(tpct) {
        r(TNAMES[rng.below(nt)])
    } else {
        r(NNAMES[rng.below(nn)])
    }
}

pub fn random_pat(rng: &mut Rng, nt: usize, nn: usize, depth: usize, tpct: usize) -> Pat {
    if depth == 0 {
        return leaf(rng, nt, nn, tpct);
    }
    match rng.below(100) {
        0..=39 => {
            let n = rng.range(1, 3);
            let v: Vec<Pat> = (0..n).map(|_| random_pat(rng, nt, nn, depth - 1, tpct)).collect();
            if v.len() == 1 {
                v.into_iter().next().unwrap()
            } else {
                Pat::Seq(v)
            }
        }
        40..=52 => {
            let n = rng.range(2, 3);
            Pat::Alt((0..n).map(|_| random_pat(rng, nt, nn, depth - 1, tpct)).collect())
        }
        53..=60 => Pat::Star(Box::new(random_pat(rng, nt, nn, depth - 1, tpct))),
        61..=68 => Pat::Plus(Box::new(random_pat(rng, nt, nn, depth - 1, tpct))),
        69..=77 => Pat::Opt(Box::new(random_pat(rng, nt, nn, depth - 1, tpct))),
        78..=80 => Pat::Alt(vec![random_pat(rng, nt, nn, depth - 1, tpct), Pat::Seq(vec![Pat::Eps])]),
        _ => leaf(rng, nt, nn, tpct),
    }
}

fn maybe_tags(rng: &mut Rng, s: &mut Spec) {
    if !rng.pct(35) {
        return;
    }
    for (i, p) in s.prods.iter_mut().enumerate() {
        if rng.pct(60) {
            p.tag = Some(format!("tag_{}{}", ["one", "two", "three"][i % 3], i));
        }
    }
}

/// Arbitrary small grammar.
pub fn random_spec(rng: &mut Rng) -> Spec {
    let nt = rng.range(1, 4);
    let nn = rng.range(1, 4);
    let tpct = rng.range(45, 75);
    let mut prods = Vec::new();
    for n in 0..nn {
        for _ in 0..rng.range(1, 3) {
            let pat = if rng.pct(8) {
                Pat::Eps
            } else {
                let d = rng.range(1, 3);
                random_pat(rng, nt, nn, d, tpct)
            };
            prods.push(Prod { name: NNAMES[n].into(), tag: None, pat });
        }
    }
    if rng.pct(30) {
        rng.shuffle(&mut prods);
    }
    let mut s = Spec { toks: toks(nt), prods, entry: NNAMES[0].into() };
    maybe_tags(rng, &mut s);
    s
}

/// Plain rules only (no groups or repetitions): closer to textbook grammars.
pub fn random_plain(rng: &mut Rng) -> Spec {
    let nt = rng.range(2, 4);
    let nn = rng.range(2, 5);
    let mut prods = Vec::new();
    for n in 0..nn {
        for _ in 0..rng.range(1, 3) {
            let len = *rng.pick(&[0, 1, 1, 2, 2, 2, 3, 3, 4]);
            let tp = rng.range(40, 70);
            let v: Vec<Pat> = (0..len).map(|_| leaf(rng, nt, nn, tp)).collect();
            prods.push(Prod {
                name: NNAMES[n].into(),
                tag: None,
                pat: match v.len() {
                    0 => Pat::Eps,
                    1 => v.into_iter().next().unwrap(),
                    _ => Pat::Seq(v),
                },
            });
        }
    }
    let mut s = Spec { toks: toks(nt), prods, entry: NNAMES[0].into() };
    maybe_tags(rng, &mut s);
    s
}

/// Alternatives that start with different tokens: often LL(1).
pub fn random_llish(rng: &mut Rng) -> Spec {
    let nt = rng.range(2, 6);
    let nn = rng.range(1, 4);
    let mut prods = Vec::new();
    for n in 0..nn {
        let mut heads: Vec<usize> = (0..nt).collect();
        rng.shuffle(&mut heads);
        let k = rng.range(1, 3.min(nt));
        let tail = |rng: &mut Rng, h: usize| {
            let mut v = vec![r(TNAMES[h])];
            for _ in 0..rng.below(4) {
                let l = leaf(rng, nt, nn, 55);
                let l = match rng.below(10) {
                    0 => Pat::Star(Box::new(l)),
                    1 => Pat::Plus(Box::new(l)),
                    2 => Pat::Opt(Box::new(l)),
                    3 => Pat::Opt(Box::new(Pat::Seq(vec![l, leaf(rng, nt, nn, 55)]))),
                    _ => l,
                };
                v.push(l);
            }
            if v.len() == 1 {
                v.pop().unwrap()
            } else {
                Pat::Seq(v)
            }
        };
        let mut alts: Vec<Pat> = heads[..k].iter().map(|h| tail(rng, *h)).collect();
        if rng.pct(35) {
            if rng.pct(50) {
                alts.push(Pat::Seq(vec![Pat::Eps]));
            } else {
                alts.push(r(NNAMES[rng.below(nn)]));
            }
        }
        if rng.pct(50) && alts.len() > 1 {
            prods.push(Prod { name: NNAMES[n].into(), tag: None, pat: Pat::Alt(alts) });
        } else {
            for a in alts {
                let a = if a == Pat::Seq(vec![Pat::Eps]) { Pat::Eps } else { a };
                prods.push(Prod { name: NNAMES[n].into(), tag: None, pat: a });
            }
        }
    }
    let mut s = Spec { toks: toks(nt), prods, entry: NNAMES[0].into() };
    maybe_tags(rng, &mut s);
    s
}

/// Phrases that look alike and are told apart by what follows them, differently in every context:
/// the borders between SLR, LALR, LR(1) and beyond.
pub fn random_contexts(rng: &mut Rng) -> Spec {
    let contexts = rng.range(2, 3);
    let phrases = rng.range(2, 3);
    let follow = rng.range(2, 3);
    let nt = contexts + 1 + follow;
    // one name more than the fixed ones for an indirection
    let names = ["u", "v", "w"];
    let tk = |i: usize| r(TNAMES[i.min(5)]);
    let nt = nt.min(6);
    let inner = contexts.min(2);
    let mut prods = Vec::new();
    let lead = |i: usize| -> Vec<Pat> {
        if i < inner {
            vec![r(TNAMES[i])]
        } else {
            vec![r(TNAMES[0]), r(TNAMES[1])]
        }
    };
    for i in 0..contexts {
        let shift = rng.below(follow);
        for j in 0..phrases {
            if rng.pct(12) {
                continue;
            }
            let f = if rng.pct(15) { rng.below(follow) } else { (j + shift) % follow };
            let mut v = lead(i);
            v.push(r(names[j]));
            if !rng.pct(12) {
                v.push(tk(inner + 1 + f));
            }
            prods.push(Prod { name: "s".into(), tag: None, pat: Pat::Seq(v) });
        }
    }
    let e = TNAMES[inner];
    let len = rng.range(1, 3);
    let form = rng.below(5);
    for n in names.iter().take(phrases) {
        let mut body: Vec<Pat> = (0..len).map(|_| r(e)).collect();
        match form {
            0 => body.push(r(n)),
            1 => body.insert(0, r(n)),
            2 => body = vec![r("x")],
            3 => body.insert(0, Pat::Opt(Box::new(r(TNAMES[nt - 1])))),
            _ => {}
        }
        let pat = if body.len() == 1 { body.pop().unwrap() } else { Pat::Seq(body) };
        prods.push(Prod { name: n.to_string(), tag: None, pat });
        if form < 2 {
            prods.push(Prod { name: n.to_string(), tag: None, pat: r(e) });
        }
    }
    if form == 2 {
        prods.push(Prod { name: "x".into(), tag: None, pat: r(e) });
        if rng.pct(50) {
            prods.push(Prod { name: "x".into(), tag: None, pat: Pat::Seq(vec![r("x"), r(e)]) });
        }
    }
    if rng.pct(25) {
        prods.push(Prod { name: "s".into(), tag: None, pat: Pat::Seq(vec![r(TNAMES[nt - 1]), r("s")]) });
    }
    if rng.pct(30) {
        rng.shuffle(&mut prods);
    }
    let mut s = Spec { toks: toks(nt), prods, entry: "s".into() };
    maybe_tags(rng, &mut s);
    s
}

/// Drop productions of names the entry cannot reach; empty if nothing sensible is left.
pub fn prune(s: &Spec) -> Spec {
    let mut seen = vec![s.entry.clone()];
    let mut i = 0;
    while i < seen.len() {
        let name = seen[i].clone();
        for p in s.prods.iter().filter(|p| p.name == name) {
            let mut v = Vec::new();
            p.pat.refs(&mut v);
            for x in v {
                if s.term_index(x).is_none() && !seen.iter().any(|y| y == x) {
                    seen.push(x.to_string());
                }
            }
        }
        i += 1;
    }
    let mut o = s.clone();
    o.prods.retain(|p| seen.contains(&p.name));
    o
}

pub fn any_spec(rng: &mut Rng) -> Spec {
    let s = match rng.below(11) {
        10 => random_contexts(rng),
        0..=3 => random_spec(rng),
        4..=6 => random_plain(rng),
        _ => random_llish(rng),
    };
    prune(&s)
}

/// The grammar beside `n` further tokens and at least `n` further productions of a finite language:
/// every number (of tokens, symbols, rules, states) grows beyond what small grammars reach.
pub fn pad(s: &Spec, n: usize, rng: &mut Rng) -> Spec {
    let mut o = s.clone();
    let at = rng.below(2) * o.toks.len();
    let mut extra: Vec<Tok> = (0..n).map(|i| Tok::lit(&format!("P{}", i), &format!("p{};", i))).collect();
    extra.push(Tok::lit("PL", "pl;"));
    extra.push(Tok::lit("PR", "pr;"));
    o.toks.splice(at..at, extra);
    let mut v = vec![];
    for i in 0..n {
        let (a, b) = (format!("P{}", i), format!("P{}", (i * 7 + 1) % n));
        if i % 2 == 0 {
            v.push(p("padhead", "", Pat::Seq(vec![r(&a), r(&b)])));
        } else {
            let name = format!("pad{}", i);
            v.push(p("padhead", "", r(&name)));
            v.push(p(&name, "", r(&a)));
        }
    }
    let at = rng.below(2) * o.prods.len();
    o.prods.splice(at..at, v);
    o.prods.insert(0, p("padroot", "", Pat::Seq(vec![r("PL"), r(&s.entry)])));
    o.prods.insert(1, p("padroot", "", Pat::Seq(vec![r("PR"), r("padhead")])));
    o.entry = "padroot".into();
    o
}

/// A random grammar that satisfies `want` (given its plain rules), with at most `tries` attempts.
pub fn find(rng: &mut Rng, tries: usize, want: impl Fn(&Spec, &Cfg) -> bool) -> Option<(Spec, Cfg)> {
    for _ in 0..tries {
        let s = any_spec(rng);
        if let Some(c) = Cfg::from_spec(&s) {
            if c.rules.len() <= 40 && c.reduced() && want(&s, &c) {
                return Some((s, c));
            }
        }
    }
    None
}

fn p(name: &str, tag: &str, pat: Pat) -> Prod {
    Prod { name: name.into(), tag: if tag.is_empty() { None } else { Some(tag.into()) }, pat }
}

/// Parse `x y* (z | w)?` in lapex's own syntax.
pub fn pat(text: &str) -> Pat {
    let t = format!("prod x = {};", text);
    match crate::gfile::parse(&t).unwrap_or_else(|e| panic!("{}: {}", text, e)).pop().unwrap().decl {
        crate::gfile::Decl::Prod { pat, .. } => pat,
        _ => unreachable!(),
    }
}

fn spec(tk: &[(&str, &str)], prods: &[(&str, &str, &str)]) -> Spec {
    Spec {
        toks: tk
            .iter()
            .map(|(n, t)| {
                if let Some(re) = t.strip_prefix('/') {
                    Tok { name: n.to_string(), prec: None, pat: TokPat::Raw(re.to_string()) }
                } else {
                    Tok::lit(n, t)
                }
            })
            .collect(),
        prods: prods.iter().map(|(n, t, b)| p(n, t, pat(b))).collect(),
        entry: prods[0].0.to_string(),
    }
}

pub const LIMITS: usize = 6;

/// Reduced grammars at sizes that ordinary ones do not reach: long chains in which what a symbol can
/// start with or be followed by is only known at the far end, rules of more than a hundred symbols,
/// symbols that only derive nothing, and many alternatives of one symbol.
pub fn limits(rng: &mut Rng, kind: usize) -> (String, Spec) {
    let names = ["A", "B", "C", "D", "E"];
    let lits = ["a", "b", "c", "d", "e"];
    let mut tk: Vec<(String, String)> = names.iter().zip(lits).map(|(n, l)| (n.to_string(), l.to_string())).collect();
    let mut ps: Vec<(String, String, String)> = Vec::new();
    let mut add = |n: &str, b: &str| ps.push((n.to_string(), String::new(), b.to_string()));
    let len = if rng.pct(70) { rng.range(17, 40) } else { rng.range(41, 70) };
    let mut mix = true;
    let what = match kind % LIMITS {
        0 => {
            // first(x0) is known after as many steps as the chain has links
            add("s", rng.pick(&["x0 E", "x0 E | B", "x0 E | C", "D x0 s | x0"]));
            for i in 0..len {
                add(&format!("x{}", i), &format!("x{}{}", i + 1, rng.pick(&["", "", " D"])));
            }
            add(&format!("x{}", len), rng.pick(&["A", "A | B", "A | B | C", "(A)?", "A*"]));
            "a chain of units"
        }
        1 => {
            // follow(x_len) is known after as many steps
            add("s", rng.pick(&["x0 E", "x0 D", "x0 E | D", "D x0 E"]));
            for i in 0..len {
                add(&format!("x{}", i), &format!("{} x{}", rng.pick(&["A", "B", "C"]), i + 1));
            }
            add(&format!("x{}", len), rng.pick(&["E?", "D?", "(A E)?", "(D | E)?", "A*", "E*"]));
            "a chain of tails"
        }
        2 => {
            // nullability travels along the chain
            add("s", rng.pick(&["x0 E", "x0 A", "x0 E | B", "C x0 B"]));
            for i in 0..len {
                add(&format!("x{}", i), &format!("x{} x{}", i + 1, len + 1));
            }
            add(&format!("x{}", len), rng.pick(&["A?", "A", "!", "B?"]));
            add(&format!("x{}", len + 1), "!");
            "a chain of empty symbols"
        }
        3 => {
            mix = rng.pct(50);
            let n = if rng.pct(60) { rng.range(100, 140) } else { rng.range(141, 250) };
            let kind = rng.below(4);
            let body: Vec<String> = (0..n)
                .map(|i| match kind {
                    0 => names[rng.below(4)].to_string(),
                    1 => "x".to_string(),
                    2 if i % 17 == 3 => "x".to_string(),
                    _ => names[(i / 3) % 4].to_string(),
                })
                .collect();
            let body = body.join(" ");
            match rng.below(6) {
                // what follows the long part decides, and there may be nothing to decide by
                4 => {
                    add("s", &format!("{} {} | {} {}", body, rng.pick(&["y E", "y", "y D E"]), body, rng.pick(&["z D", "z", "z E", "A"])));
                    add("y", rng.pick(&["A", "A | D"]));
                    add("z", rng.pick(&["A", "A | E", "D"]));
                }
                5 => {
                    add("s", &format!("y {} | A {}", body, rng.pick(&["E", "D", ""])));
                    add("y", &format!("A {} {}", body, rng.pick(&["y?", "E?", "D"])));
                }
                0 => add("s", &format!("{} E s | E", body)),
                1 => add("s", &format!("{} E | D D", body)),
                2 => {
                    add("s", "E y E | D");
                    add("y", &body);
                }
                _ => add("s", &format!("E s E | {}", body)),
            }
            if body.contains('x') {
                add("x", rng.pick(&["A", "A | B", "A B | C", "C | C A"]));
            }
            "a long rule"
        }
        4 => {
            // symbols that only derive nothing choose nothing and still take part
            add("n", "!");
            let m = rng.pct(50);
            if m {
                add("m", rng.pick(&["n n", "n", "(!) n"]));
            }
            let k = rng.range(2, 4);
            let mut alts = Vec::new();
            let alike = rng.pct(50).then(|| rng.range(1, 2));
            for t in names.iter().take(k) {
                let mut a: Vec<&str> = vec!["n"; alike.unwrap_or_else(|| rng.range(0, 2))];
                if m && rng.pct(40) {
                    a.push("m");
                }
                a.push(t);
                if rng.pct(if alike.is_some() { 5 } else { 30 }) {
                    a.push("n");
                }
                if rng.pct(if alike.is_some() { 10 } else { 30 }) {
                    a.push("E");
                }
                if rng.pct(20) {
                    a.push("E s");
                }
                alts.push(a.join(" "));
            }
            if !alts.iter().any(|a| a.contains('n')) {
                alts[0] = format!("n {}", alts[0]);
            }
            if m && !alts.iter().any(|a| a.contains('m')) {
                alts[1] = format!("m {}", alts[1]);
            }
            add("s", &alts.join(" | "));
            "symbols that derive nothing"
        }
        _ => {
            let n = rng.range(30, 60);
            tk.clear();
            for i in 0..n {
                tk.push((format!("T{}", i), format!("t{};", i)));
            }
            let alts: Vec<String> = (0..n - 1).map(|i| format!("T{}{}", i, rng.pick(&["", " s", " x", " T0", " x x"]))).collect();
            add("s", &alts.join(" | "));
            add("x", &format!("T{} s | T{}?", n - 1, n - 2));
            "many alternatives"
        }
    };
    let entry = "s".to_string();
    if mix {
        if rng.pct(50) {
            ps.reverse();
        } else if rng.pct(40) {
            rng.shuffle(&mut ps);
        }
    }
    // only the tokens in use
    let used: String = ps.iter().map(|q| format!(" {} ", q.2)).collect::<String>().replace(['?', '*', '+', '(', ')'], " ");
    let s = Spec {
        toks: tk.iter().filter(|(n, _)| used.split_whitespace().any(|u| u == n)).map(|(n, l)| Tok::lit(n, l)).collect(),
        prods: ps.iter().map(|(n, t, b)| p(n, t, pat(b))).collect(),
        entry,
    };
    (what.to_string(), s)
}

/// Realistic and textbook grammars.
pub fn curated() -> Vec<(&'static str, Spec)> {
    let ab = &[("A", "a"), ("B", "b"), ("C", "c"), ("D", "d")];
    let mut v = vec![
        (
            "expressions",
            spec(
                &[("NUM", "n"), ("PLUS", "+"), ("STAR", "*"), ("LPAREN", "("), ("RPAREN", ")")],
                &[
                    ("expr", "add", "expr PLUS term"),
                    ("expr", "", "term"),
                    ("term", "mul", "term STAR factor"),
                    ("term", "", "factor"),
                    ("factor", "num", "NUM"),
                    ("factor", "paren", "LPAREN expr RPAREN"),
                ],
            ),
        ),
        (
            "ambiguous_expressions",
            spec(
                &[("NUM", "n"), ("PLUS", "+"), ("STAR", "*")],
                &[("expr", "add", "expr PLUS expr"), ("expr", "mul", "expr STAR expr"), ("expr", "num", "NUM")],
            ),
        ),
        (
            "expressions_ebnf",
            spec(
                &[("NUM", "n"), ("PLUS", "+"), ("MINUS", "-"), ("STAR", "*"), ("LPAREN", "("), ("RPAREN", ")")],
                &[
                    ("expr", "", "term ((PLUS | MINUS) term)*"),
                    ("term", "", "factor (STAR factor)*"),
                    ("factor", "", "NUM | LPAREN expr RPAREN | MINUS factor"),
                ],
            ),
        ),
        (
            "json",
            spec(
                &[
                    ("LBRACE", "{"),
                    ("RBRACE", "}"),
                    ("LBRACK", "["),
                    ("RBRACK", "]"),
                    ("COLON", ":"),
                    ("COMMA", ","),
                    ("STRING", "s"),
                    ("NUMBER", "n"),
                    ("KW_TRUE", "true"),
                    ("KW_FALSE", "false"),
                    ("KW_NULL", "null"),
                ],
                &[
                    ("value", "", "object | array | STRING | NUMBER | KW_TRUE | KW_FALSE | KW_NULL"),
                    ("object", "", "LBRACE (pair (COMMA pair)*)? RBRACE"),
                    ("pair", "", "STRING COLON value"),
                    ("array", "", "LBRACK (value (COMMA value)*)? RBRACK"),
                ],
            ),
        ),
        (
            "statements",
            spec(
                &[
                    ("KW_IF", "if"),
                    ("KW_ELSE", "else"),
                    ("KW_WHILE", "while"),
                    ("IDENT", "i"),
                    ("ASSIGN", "="),
                    ("SEMI", ";"),
                    ("LBRACE", "{"),
                    ("RBRACE", "}"),
                ],
                &[
                    ("program", "", "stmt*"),
                    ("stmt", "if_stmt", "KW_IF IDENT block (KW_ELSE block)?"),
                    ("stmt", "while_stmt", "KW_WHILE IDENT block"),
                    ("stmt", "assign", "IDENT ASSIGN IDENT+ SEMI"),
                    ("block", "", "LBRACE stmt* RBRACE"),
                ],
            ),
        ),
        (
            "dangling_else",
            spec(
                &[("KW_IF", "if"), ("KW_ELSE", "else"), ("X", "x")],
                &[("stmt", "", "KW_IF stmt"), ("stmt", "", "KW_IF stmt KW_ELSE stmt"), ("stmt", "", "X")],
            ),
        ),
        (
            "lr1_not_lalr",
            spec(
                &[("A", "a"), ("B", "b"), ("C", "c"), ("D", "d"), ("E", "e")],
                &[
                    ("s", "", "A t D"),
                    ("s", "", "B u D"),
                    ("s", "", "A u E"),
                    ("s", "", "B t E"),
                    ("t", "", "C"),
                    ("u", "", "C"),
                ],
            ),
        ),
        (
            "lalr_not_slr",
            spec(
                &[("EQ", "="), ("STAR", "*"), ("ID", "i")],
                &[("s", "", "l EQ r"), ("s", "", "r"), ("l", "", "STAR r"), ("l", "", "ID"), ("r", "", "l")],
            ),
        ),
        ("lr0", spec(ab, &[("s", "", "A s B"), ("s", "", "C")])),
        ("lr0_left", spec(ab, &[("s", "", "s A"), ("s", "", "B")])),
        ("left_list", spec(ab, &[("s", "", "s A"), ("s", "", "A")])),
        ("right_list", spec(ab, &[("s", "", "A s"), ("s", "", "A")])),
        ("nullable_chain", spec(ab, &[("s", "", "t u A"), ("t", "", "B?"), ("u", "", "(C u)?")])),
        ("nested_opt", spec(ab, &[("s", "", "A? B? C? D")])),
        ("palindromes", spec(ab, &[("s", "", "A s A"), ("s", "", "B s B"), ("s", "", "C")])),
        ("even_palindromes", spec(ab, &[("s", "", "A s A | B s B | A A | B B")])),
        ("balanced", spec(ab, &[("s", "", "(A s B)*")])),
        ("two_readings", spec(ab, &[("s", "", "t"), ("s", "", "u"), ("t", "", "A+ B"), ("u", "", "A+ C")])),
        ("ambiguous_lists", spec(ab, &[("s", "", "t u"), ("t", "", "A*"), ("u", "", "A*")])),
        ("opt_opt", spec(ab, &[("s", "", "A t"), ("t", "", "B? u"), ("u", "", "(B | C)?")])),
        ("catalan", spec(ab, &[("s", "", "s s"), ("s", "", "A")])),
        ("late_decision", spec(ab, &[("s", "", "t C"), ("s", "", "u D"), ("t", "", "A t | A"), ("u", "", "A u | A")])),
        ("ll2", spec(ab, &[("s", "", "A B | A C")])),
        ("empty_or", spec(ab, &[("s", "", "!"), ("s", "", "A s B")])),
        ("unit_chain", spec(ab, &[("s", "", "t"), ("t", "", "u"), ("u", "", "A"), ("u", "", "B u")])),
        ("ll_follow", spec(ab, &[("s", "", "t A"), ("t", "", "B t | C?")])),
        (
            "calls",
            spec(
                &[("ID", "i"), ("LPAREN", "("), ("RPAREN", ")"), ("COMMA", ","), ("DOT", ".")],
                &[
                    ("expr", "call", "expr LPAREN args RPAREN"),
                    ("expr", "field", "expr DOT ID"),
                    ("expr", "", "ID"),
                    ("args", "", "(expr (COMMA expr)*)?"),
                ],
            ),
        ),
        (
            "lapex",
            spec(
                &[
                    ("KW_TOKEN", "token"),
                    ("KW_ENTRY", "entry"),
                    ("KW_PROD", "prod"),
                    ("EQUALS", "="),
                    ("SEMI", ";"),
                    ("LPAR", "("),
                    ("RPAR", ")"),
                    ("LBRACK", "["),
                    ("RBRACK", "]"),
                    ("DIGIT", "0"),
                    ("QUESTION", "?"),
                    ("NOTHING", "!"),
                    ("ASTERISK", "*"),
                    ("PLUS", "+"),
                    ("PIPE", "|"),
                    ("IDENT", "i"),
                    ("STRING", "s"),
                    ("REGEX", "r"),
                ],
                &[
                    ("rules", "", "rule"),
                    ("rules", "", "rule rules"),
                    ("rule", "", "entry_rule"),
                    ("rule", "", "prod_rule"),
                    ("rule", "", "token_rule"),
                    ("entry_rule", "", "KW_ENTRY IDENT SEMI"),
                    ("prod_rule", "", "KW_PROD IDENT (tag)? EQUALS pattern SEMI"),
                    ("token_rule", "", "KW_TOKEN IDENT (precedence)? EQUALS (REGEX | STRING) SEMI"),
                    ("precedence", "", "LBRACK DIGIT RBRACK"),
                    ("tag", "", "LBRACK IDENT RBRACK"),
                    ("pattern", "", "alternative"),
                    ("pattern", "", "NOTHING"),
                    ("alternative", "", "concatenation PIPE alternative"),
                    ("alternative", "", "concatenation"),
                    ("concatenation", "", "unary concatenation"),
                    ("concatenation", "", "unary"),
                    ("unary", "", "item QUESTION"),
                    ("unary", "", "item PLUS"),
                    ("unary", "", "item ASTERISK"),
                    ("unary", "", "item"),
                    ("item", "", "IDENT"),
                    ("item", "", "LPAR pattern RPAR"),
                ],
            ),
        ),
    ];
    // families: n keywords, n levels of precedence
    for n in [3usize, 6] {
        let mut tk: Vec<Tok> = (0..n).map(|i| Tok::lit(&format!("OP{}", i), &format!("op{}", i))).collect();
        tk.push(Tok::lit("ATOM", "x"));
        let mut prods = Vec::new();
        for i in 0..n {
            let this = format!("lvl{}", i);
            let next = if i + 1 < n { format!("lvl{}", i + 1) } else { "ATOM".to_string() };
            prods.push(p(&this, "", pat(&format!("{} OP{} {}", this, i, next))));
            prods.push(p(&this, "", pat(&next)));
        }
        v.push(("levels", Spec { toks: tk, prods, entry: "lvl0".into() }));
    }
    v
}

// ---------------------------------------------------------------- token rules

const POOL: [char; 22] = [
    'a', 'b', 'c', 'd', 'x', 'z', '0', '1', '9', ' ', '\n', '+', '-', '/', '"', '_', '\u{e9}', '\u{df}', '\u{65e5}',
    '\u{672c}', '\u{1f600}', '\u{10ffff}',
];

fn pool_char(rng: &mut Rng) -> char {
    if rng.pct(65) {
        *rng.pick(&['a', 'b', 'c', 'd'])
    } else {
        *rng.pick(&POOL)
    }
}

fn random_set(rng: &mut Rng) -> Rx {
    match rng.below(100) {
        0..=54 => {
            let c = pool_char(rng);
            match rng.below(12) {
                0 => Rx::Set(Set::one(c), format!("\\x{{{:x}}}", c as u32)),
                1 => Rx::Set(Set::one(c), format!("\\u{{{:X}}}", c as u32)),
                _ => Rx::ch(c),
            }
        }
        55..=59 => Rx::Set(Set::one('\n').negate(), ".".into()),
        _ => {
            let neg = rng.pct(25);
            let n = rng.range(1, 3);
            let mut v = Vec::new();
            let mut t = String::new();
            for _ in 0..n {
                let a = pool_char(rng);
                if rng.pct(50) {
                    let b = pool_char(rng);
                    let (a, b) = if a <= b { (a, b) } else { (b, a) };
                    v.push((a as u32, b as u32));
                    t.push_str(&format!("{}-{}", crate::rx::esc(a), crate::rx::esc(b)));
                } else {
                    v.push((a as u32, a as u32));
                    t.push_str(&crate::rx::esc(a));
                }
            }
            let s = Set::new(v);
            if neg {
                let s = s.negate();
                if s.is_empty() {
                    return Rx::ch('a');
                }
                Rx::Set(s, format!("[^{}]", t))
            } else {
                Rx::Set(s, format!("[{}]", t))
            }
        }
    }
}

pub fn random_rx(rng: &mut Rng, depth: usize) -> Rx {
    if depth == 0 {
        return random_set(rng);
    }
    match rng.below(100) {
        0..=34 => {
            let n = rng.range(2, 3);
            Rx::Cat((0..n).map(|_| random_rx(rng, depth - 1)).collect())
        }
        35..=54 => {
            let n = rng.range(2, 3);
            Rx::Alt((0..n).map(|_| random_rx(rng, depth - 1)).collect())
        }
        55..=84 => {
            let inner = Box::new(random_rx(rng, depth - 1));
            let (min, max) = match rng.below(9) {
                0 | 1 => (0, Some(1)),
                2 | 3 => (0, None),
                4 => (1, None),
                5 => {
                    let n = rng.range(1, 4) as u32;
                    (n, Some(n))
                }
                6 => (rng.range(0, 3) as u32, None),
                _ => {
                    let a = rng.range(0, 3) as u32;
                    let b = a + rng.range(0, 3) as u32;
                    (a, Some(b.max(1)))
                }
            };
            Rx::Rep(inner, min, max)
        }
        _ => random_set(rng),
    }
}

/// Written-out patterns as they occur in practice.
pub fn common_rx(rng: &mut Rng) -> Rx {
    let set = |t: &str, v: &[(char, char)], neg: bool| {
        let s = Set::new(v.iter().map(|(a, b)| (*a as u32, *b as u32)).collect());
        Rx::Set(if neg { s.negate() } else { s }, t.to_string())
    };
    let digit = set("[0-9]", &[('0', '9')], false);
    let rep = |r: Rx, a, b| Rx::Rep(Box::new(r), a, b);
    match rng.below(9) {
        0 => Rx::Cat(vec![
            set("[a-zA-Z_]", &[('a', 'z'), ('A', 'Z'), ('_', '_')], false),
            rep(set("[a-zA-Z0-9_]", &[('a', 'z'), ('A', 'Z'), ('0', '9'), ('_', '_')], false), 0, None),
        ]),
        1 => Rx::Alt(vec![Rx::ch('0'), Rx::Cat(vec![set("[1-9]", &[('1', '9')], false), rep(digit, 0, None)])]),
        2 => Rx::Cat(vec![
            rep(digit.clone(), 1, None),
            rep(Rx::Cat(vec![Rx::ch('.'), rep(digit, 1, None)]), 0, Some(1)),
        ]),
        3 => Rx::Cat(vec![
            Rx::ch('"'),
            rep(
                Rx::Alt(vec![
                    set("[^\"\\\\\\n]", &[('"', '"'), ('\\', '\\'), ('\n', '\n')], true),
                    Rx::Cat(vec![Rx::ch('\\'), Rx::Set(Set::one('\n').negate(), ".".into())]),
                ]),
                0,
                None,
            ),
            Rx::ch('"'),
        ]),
        4 => Rx::Cat(vec![Rx::lit("//"), rep(set("[^\\n]", &[('\n', '\n')], true), 0, None)]),
        5 => rep(set("[ \\t]", &[(' ', ' '), ('\t', '\t')], false), 1, None),
        6 => Rx::Cat(vec![Rx::lit("0x"), rep(set("[0-9a-f]", &[('0', '9'), ('a', 'f')], false), 1, Some(4))]),
        7 => Rx::Cat(vec![
            rep(digit.clone(), 4, Some(4)),
            Rx::ch('-'),
            rep(digit.clone(), 2, Some(2)),
            Rx::ch('-'),
            rep(digit, 2, Some(2)),
        ]),
        _ => Rx::Cat(vec![
            Rx::lit("/*"),
            rep(
                Rx::Alt(vec![
                    set("[^*]", &[('*', '*')], true),
                    Rx::Cat(vec![rep(Rx::ch('*'), 1, None), set("[^*\\/]", &[('*', '*'), ('/', '/')], true)]),
                ]),
                0,
                None,
            ),
            rep(Rx::ch('*'), 1, None),
            Rx::ch('/'),
        ]),
    }
}

const WORDS: [&str; 16] = [
    "a", "ab", "abc", "b", "bb", "ba", "if", "else", "c", "+", "++", "=", "==", "\u{e9}", "\u{65e5}b", "d0",
];

/// The text between the quotes of a literal; a backslash always stands before another character.
pub fn random_word(rng: &mut Rng) -> String {
    if rng.pct(70) {
        return rng.pick(&WORDS).to_string();
    }
    let parts = [
        "a", "b", "c", "\\\"", "\\\\", "\\n", "\\a", "'", "/", "//", "\u{e9}", "\u{65e5}", "\u{10ffff}", ".", "*", "|", "(", ")", "[", "]", "{2}", "$", "^",
        "-", ";", "#", " ", "\u{7f}",
    ];
    (0..rng.range(1, 5)).map(|_| *rng.pick(&parts)).collect()
}

/// Rules over hundreds of scattered characters: the alphabet has many ranges.
pub fn many_chars(rng: &mut Rng, n: usize) -> Vec<Tok> {
    let mut cs = std::collections::BTreeSet::new();
    while cs.len() < n {
        let c = match rng.below(4) {
            0 => 0x4e00 + rng.below(0x5000) as u32,
            1 => 0xa1 + rng.below(0x600) as u32,
            2 => 0x1f300 + rng.below(0x300) as u32,
            _ => 0x3040 + rng.below(0xc0) as u32,
        };
        cs.insert(c);
    }
    let cs: Vec<char> = cs.into_iter().filter_map(char::from_u32).collect();
    let set = |v: &[char]| Rx::Set(Set::new(v.iter().map(|c| (*c as u32, *c as u32)).collect()), format!("[{}]", v.iter().collect::<String>()));
    let (a, b): (Vec<char>, Vec<char>) = cs.iter().partition(|_| rng.pct(50));
    let span = (cs[n / 3], cs[n / 2]);
    let range = Rx::Set(Set::new(vec![(span.0 as u32, span.1 as u32)]), format!("[{}-{}]", span.0, span.1));
    let mut v = vec![
        Tok { name: "TA".into(), prec: Some(3), pat: TokPat::Re(Rx::Rep(Box::new(set(&a)), 1, Some(2))) },
        Tok { name: "TB".into(), prec: Some(4), pat: TokPat::Re(Rx::Cat(vec![set(&b), Rx::Rep(Box::new(range), 0, None)])) },
    ];
    for i in 0..12 {
        v.push(Tok { name: format!("W{}", i), prec: Some(10 + i), pat: TokPat::Lit((0..rng.range(1, 3)).map(|_| *rng.pick(&cs)).collect()) });
    }
    let at = rng.below(2) * v.len();
    v.insert(at, Tok { name: "NAME".into(), prec: Some(2), pat: TokPat::Re(Rx::Rep(Box::new(Rx::Set(Set::new(vec![(97, 122)]), "[a-z]".into())), 1, None)) });
    v
}

/// Many keywords beside an identifier: more tokens, states and branches than small sets have.
pub fn many_toks(rng: &mut Rng, n: usize) -> Vec<Tok> {
    let mut words = std::collections::BTreeSet::new();
    let letters: Vec<char> = "abcdehilnorstuwxyz".chars().collect();
    while words.len() < n {
        let mut w: String = (0..rng.range(2, 3)).map(|_| *rng.pick(&letters)).collect();
        if rng.pct(2) {
            w.push(char::from_u32(0x4e00 + rng.below(200) as u32).unwrap());
        }
        if rng.pct(4) {
            if let Some(x) = words.iter().nth(rng.below(words.len().max(1))) {
                w = format!("{}{}", x, rng.pick(&letters));
            }
        }
        words.insert(w);
    }
    let mut v: Vec<Tok> = words.iter().enumerate().map(|(i, w)| Tok::lit(&format!("W{}", i), w)).collect();
    rng.shuffle(&mut v);
    let set = |t: &str, v: &[(char, char)]| Rx::Set(Set::new(v.iter().map(|(a, b)| (*a as u32, *b as u32)).collect()), t.to_string());
    let id = Rx::Rep(Box::new(set("[a-z]", &[('a', 'z')])), 1, None);
    let at = rng.below(2) * v.len();
    v.insert(at, Tok { name: "IDENT".into(), prec: None, pat: TokPat::Re(id) });
    v
}

/// Rules around repetition counts and literal lengths in the hundreds.
pub fn large_toks(rng: &mut Rng) -> Vec<Tok> {
    let n = rng.range(120, 300);
    let n = if rng.pct(40) { rng.range(250, 260) } else { n };
    let a = || Box::new(Rx::ch('a'));
    let rx = match rng.below(7) {
        0 => Rx::Rep(a(), n as u32, Some(n as u32)),
        1 => Rx::Rep(a(), n as u32, None),
        2 => Rx::Rep(a(), rng.range(1, 3) as u32, Some(n as u32)),
        3 => Rx::Rep(Box::new(Rx::Cat(vec![Rx::ch('a'), Rx::ch('b')])), 2, Some(n as u32 / 2)),
        4 => Rx::Cat(vec![Rx::Rep(a(), n as u32, Some(n as u32 + 3)), Rx::ch('b')]),
        5 => Rx::Rep(Box::new(Rx::Set(Set::new(vec![(97, 98)]), "[a-b]".into())), n as u32, Some(n as u32 + 2)),
        _ => Rx::Rep(Box::new(Rx::Rep(a(), 16, Some(16))), n as u32 / 16, Some(n as u32 / 16 + 1)),
    };
    let min = rx.shortest();
    let mut v = vec![Tok { name: "TA".into(), prec: None, pat: TokPat::Re(rx.clone()) }];
    let lit = match rng.below(5) {
        0 => "a".repeat(n),
        1 => "ab".repeat(n / 2),
        2 => "a".repeat(min + 1),
        3 => {
            let mut s = String::new();
            rx.sample(rng, &mut s);
            s
        }
        _ => return v,
    };
    v.push(Tok::lit("TB", &lit));
    if rng.pct(60) {
        // precedences around each other
        let l = 2 * lit.len() as u32;
        v[0].prec = Some(*rng.pick(&[l, l - 1, l + 1, l & 0xff, min as u32]));
    } else if rng.pct(50) {
        v[1].prec = Some(*rng.pick(&[min as u32, min as u32 + 1, (min as u32).saturating_sub(1), 256, 65535]));
    }
    v
}

/// Token rules that all match one common text, with precedences close to each other.
pub fn overlapping_toks(rng: &mut Rng) -> Vec<Tok> {
    // characters of one to four bytes
    let al: [char; 3] = *rng.pick(&[
        ['a', 'b', 'c'],
        ['a', 'b', 'c'],
        ['a', 'b', 'c'],
        ['\u{e7}', '\u{e8}', '\u{e9}'],
        ['b', '\u{7ff}', '\u{800}'],
        ['\u{65e5}', '\u{65e6}', '\u{65e7}'],
        ['z', '\u{4e00}', '\u{1f600}'],
        ['\u{ffff}', '\u{10000}', '\u{10ffff}'],
    ]);
    let base: Vec<char> = (0..rng.range(1, 4)).map(|_| *rng.pick(&al)).collect();
    let abc = || Rx::Set(Set::new(vec![(al[0] as u32, al[2] as u32)]), format!("[{}-{}]", al[0], al[2]));
    let word = |cs: &[char]| Rx::Cat(cs.iter().map(|c| Rx::ch(*c)).collect());
    let n = rng.range(2, 5);
    let mut v = Vec::new();
    let len = base.len() as u32;
    for k in 0..n {
        let other: Vec<char> = (0..rng.range(1, 6)).map(|_| *rng.pick(&[al[0], al[1], al[2], 'x'])).collect();
        let pat = match rng.below(7) {
            0 if !v.iter().any(|t: &Tok| matches!(t.pat, TokPat::Lit(_))) => TokPat::Lit(base.iter().collect()),
            0 | 1 => {
                let mut alts = vec![word(&base), word(&other)];
                if rng.pct(40) {
                    alts.push(Rx::Rep(Box::new(word(&other)), 1, None));
                }
                rng.shuffle(&mut alts);
                TokPat::Re(Rx::Alt(alts))
            }
            2 => {
                let lo = 1 + rng.below(len as usize) as u32;
                let hi = if rng.pct(40) { None } else { Some(len + rng.below(3) as u32) };
                TokPat::Re(Rx::Rep(Box::new(abc()), lo, hi))
            }
            3 => TokPat::Re(Rx::Cat((0..len).map(|_| abc()).collect())),
            4 => {
                let mut parts = vec![word(&base)];
                let more = Rx::Rep(Box::new(word(&other)), 0, if rng.pct(50) { Some(1 + rng.below(3) as u32) } else { None });
                parts.insert(rng.below(2), more);
                TokPat::Re(Rx::Cat(parts))
            }
            5 => {
                let cut = rng.below(base.len());
                let mut parts: Vec<Rx> = base[..cut].iter().map(|c| Rx::ch(*c)).collect();
                parts.push(Rx::Alt(vec![word(&base[cut..]), word(&other)]));
                TokPat::Re(Rx::Cat(parts))
            }
            _ => {
                let sets = base.iter().map(|c| {
                    let d = *rng.pick(&[al[0], 'x', 'y', 'w']);
                    Rx::Set(Set::new(vec![(*c as u32, *c as u32), (d as u32, d as u32)]), format!("[{}{}]", c, d))
                });
                TokPat::Re(Rx::Cat(sets.collect()))
            }
        };
        if let TokPat::Re(r) = &pat {
            if r.nullable() || !rx_supported(r) {
                continue;
            }
        }
        let mut t = Tok { name: format!("T{}", ["A", "B", "C", "D", "E"][k]), prec: None, pat };
        if rng.pct(35) {
            let p = if rng.pct(50) { t.precedence() as i64 + rng.below(5) as i64 - 2 } else { rng.below(3 * base.len() + 3) as i64 };
            t.prec = Some(p.max(0) as u32);
        }
        v.push(t);
    }
    if v.is_empty() {
        v.push(Tok::lit("TA", "a"));
    }
    rng.shuffle(&mut v);
    v
}

/// Token rules whose patterns match no empty text and are accepted by the regex front end.
pub fn random_toks(rng: &mut Rng, explicit_pct: usize) -> Vec<Tok> {
    let n = rng.range(1, 5);
    let mut v: Vec<Tok> = Vec::new();
    let mut guard = 0;
    while v.len() < n && guard < 60 {
        guard += 1;
        let name = format!("T{}", ["A", "B", "C", "D", "E"][v.len()]);
        let prec = if rng.pct(explicit_pct) { Some(rng.below(12) as u32) } else { None };
        let pat = if rng.pct(35) {
            let w = random_word(rng);
            if v.iter().any(|t| matches!(&t.pat, TokPat::Lit(x) if *x == w)) {
                continue;
            }
            TokPat::Lit(w)
        } else {
            let rx = if rng.pct(25) {
                common_rx(rng)
            } else {
                let d = rng.range(0, 3);
                random_rx(rng, d)
            };
            if rx.nullable() || !rx_supported(&rx) {
                continue;
            }
            TokPat::Re(rx)
        };
        v.push(Tok { name, prec, pat });
    }
    if v.is_empty() {
        v.push(Tok::lit("TA", "a"));
    }
    v
}

/// Patterns the regex library reduces to something with an empty part are refused by design.
pub fn rx_supported(r: &Rx) -> bool {
    use regex_syntax::hir::{Hir, HirKind};
    fn ok(h: &Hir) -> bool {
        match h.kind() {
            HirKind::Empty | HirKind::Look(_) => false,
            HirKind::Literal(_) => true,
            HirKind::Class(regex_syntax::hir::Class::Bytes(_)) => false,
            HirKind::Class(_) => true,
            HirKind::Repetition(rep) => rep.greedy && ok(&rep.sub),
            HirKind::Capture(c) => ok(&c.sub),
            HirKind::Concat(v) | HirKind::Alternation(v) => v.iter().all(ok),
        }
    }
    match regex_syntax::parse(&r.print()) {
        Ok(h) => ok(&h),
        Err(_) => false,
    }
}
