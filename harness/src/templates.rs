//! Template instantiation against our own placeholder scanner, with writers that fail anywhere.
use crate::ctx::Ctx;
use crate::files::{lang_name, reference, COMBOS};
use crate::front;
use crate::glue::*;
use crate::util::*;
use lapex_codegen::{GeneratedCodeWriter, Template};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Error, ErrorKind, Write};
use std::path::{Path, PathBuf};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Part {
    Text(String),
    Hole(String),
}

/// A placeholder starts with the characters / * {, ends with the next } * / and has no line break.
pub fn scan(t: &str) -> Vec<Part> {
    let b = t.as_bytes();
    let mut parts = Vec::new();
    let mut text = 0;
    let mut i = 0;
    while i < b.len() {
        if b[i..].starts_with(b"/*{") {
            let mut j = i + 3;
            while j < b.len() && b[j] != b'\n' && !b[j..].starts_with(b"}*/") {
                j += 1;
            }
            if j < b.len() && b[j] != b'\n' {
                parts.push(Part::Text(t[text..i].to_string()));
                parts.push(Part::Hole(t[i + 3..j].trim().to_string()));
                i = j + 3;
                text = i;
                continue;
            }
        }
        i += 1;
    }
    parts.push(Part::Text(t[text..].to_string()));
    parts
}

const KEYS: [&str; 14] =
    ["a", "b", "name", "key", "", "{", "}", "/*{", "a b", "x}", "*/", "ä", "tokens", "long_placeholder_name"];

#[derive(Clone, Debug)]
enum Emit {
    Chunks(Vec<Vec<u8>>),
    Format(String),
    /// Emits its number of uses so far.
    Counter,
    Nested(String),
    Fail(Vec<u8>, ErrorKind),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    /// Every write takes at most this many bytes.
    Short(usize),
    /// Every other call is interrupted.
    Interrupt(usize),
    Error(usize, ErrorKind),
    Zero(usize),
    /// Flushing fails; writing does not.
    Flush,
}

struct Sink {
    got: Vec<u8>,
    fault: Fault,
    calls: usize,
    failed: bool,
    flushed: Option<usize>,
}

impl Sink {
    fn new(fault: Fault) -> Self {
        Sink { got: Vec::new(), fault, calls: 0, failed: false, flushed: None }
    }
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        let n = match self.fault {
            Fault::None | Fault::Flush => b.len(),
            Fault::Short(k) => b.len().min(k),
            Fault::Interrupt(k) => {
                if self.calls % 2 == 1 {
                    return Err(Error::new(ErrorKind::Interrupted, "again"));
                }
                b.len().min(k)
            }
            Fault::Error(at, kind) => {
                if self.got.len() >= at && !b.is_empty() {
                    self.failed = true;
                    return Err(Error::new(kind, "injected"));
                }
                b.len().min(at - self.got.len())
            }
            Fault::Zero(at) => {
                if self.got.len() >= at && !b.is_empty() {
                    self.failed = true;
                }
                b.len().min(at.saturating_sub(self.got.len()))
            }
        };
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.flushed = Some(self.got.len());
        if self.fault == Fault::Flush {
            self.failed = true;
            return Err(Error::new(ErrorKind::Other, "injected at flush"));
        }
        Ok(())
    }
}

enum Want {
    Whole(Vec<u8>),
    /// The instantiation has to fail after at most these bytes.
    Refusal(Vec<u8>, String),
}

fn want(t: &str, subs: &BTreeMap<&'static str, Emit>, counts: &mut BTreeMap<String, usize>) -> Want {
    let mut out = Vec::new();
    for p in scan(t) {
        match p {
            Part::Text(s) => out.extend_from_slice(s.as_bytes()),
            Part::Hole(k) => match subs.get(k.as_str()) {
                None => return Want::Refusal(out, format!("no writer for '{}'", k)),
                Some(Emit::Chunks(c)) => c.iter().for_each(|c| out.extend_from_slice(c)),
                Some(Emit::Format(s)) => out.extend_from_slice(s.as_bytes()),
                Some(Emit::Counter) => {
                    let c = counts.entry(k).or_insert(0);
                    *c += 1;
                    out.extend_from_slice(format!("<{}>", c).as_bytes());
                }
                Some(Emit::Nested(t)) => match want(t, &inner_subs(), counts) {
                    Want::Whole(v) => out.extend_from_slice(&v),
                    Want::Refusal(v, why) => {
                        out.extend_from_slice(&v);
                        return Want::Refusal(out, why);
                    }
                },
                Some(Emit::Fail(v, _)) => {
                    out.extend_from_slice(v);
                    return Want::Refusal(out, format!("the writer of '{}' fails", k));
                }
            },
        }
    }
    Want::Whole(out)
}

fn inner_subs() -> BTreeMap<&'static str, Emit> {
    [("a", Emit::Chunks(vec![b"/*{a}*/".to_vec()])), ("b", Emit::Chunks(vec![vec![0xff, 0], b"$1".to_vec()]))].into()
}

fn emit(e: &Emit, count: &Cell<usize>, w: &mut dyn Write) -> Result<(), Error> {
    match e {
        Emit::Chunks(c) => {
            for c in c {
                w.write_all(c)?;
            }
        }
        Emit::Format(s) => {
            let (l, r) = s.split_at(s.char_indices().nth(s.chars().count() / 2).map(|x| x.0).unwrap_or(0));
            write!(w, "{}{}", l, r)?;
        }
        Emit::Counter => {
            count.set(count.get() + 1);
            write!(w, "<{}>", count.get())?;
        }
        Emit::Nested(t) => {
            let t = Template::new(t);
            let mut tw = t.writer();
            for (k, e) in inner_subs() {
                tw.substitute(k, move |w| emit(&e, &Cell::new(0), w));
            }
            tw.write(w)?;
        }
        Emit::Fail(v, kind) => {
            w.write_all(v)?;
            return Err(Error::new(*kind, "emitter"));
        }
    }
    Ok(())
}

fn blob(rng: &mut Rng) -> Vec<u8> {
    match rng.below(8) {
        0 => b"/*{a}*/".to_vec(),
        1 => (0..rng.below(12)).map(|_| rng.below(256) as u8).collect(),
        2 => b"$1 ${a} $0 \\1".to_vec(),
        3 => b"/*{".to_vec(),
        4 => b"}*/".to_vec(),
        5 => "a\u{0}b\r\n\tä\u{1f600}".as_bytes().to_vec(),
        6 => vec![b'x'; rng.range(1, 60)],
        _ => Vec::new(),
    }
}

fn template_text(rng: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..rng.range(0, 9) {
        let k: &str = *rng.pick(&KEYS);
        match rng.below(17) {
            0..=4 => s.push_str(&format!("/*{{{}}}*/", k)),
            5 => s.push_str(&format!("/*{{ {}\t}}*/", k)),
            6 => s.push_str(&format!("/*{{{}*/", k)),
            7 => s.push_str(&format!("/*{}*/", k)),
            8 => s.push_str(&format!("/*{{{}\n}}*/", k)),
            9 => s.push_str(&format!("/ *{{{}}}* /", k)),
            10 => s.push_str("/*{/*{"),
            11 => s.push_str("}*/"),
            12 => s.push_str("/*{"),
            13 => s.push_str(&format!("//*{{{}}}*//", k)),
            14 => s.push_str(&format!("\n    int f({}) {{ /* {{}} */ }}\r\n", k)),
            15 => s.push_str(&format!("/*{{\u{a0}{}\r}}*/", k)),
            _ => s.push_str(*rng.pick(&["ä\u{1f600}\u{0}", "$0", "\\{", "text", " ", "/", "*", "{", "}"])),
        }
    }
    s
}

/// A text far beyond any buffer size, with placeholders all over.
fn long_text(rng: &mut Rng) -> String {
    let mut s = String::new();
    let size = *rng.pick(&[3000, 9000, 66000, 70000, 140000]);
    let line = *rng.pick(&[10, 60, 1000, 5000]);
    while s.len() < size {
        s.push_str(&rng.pick(&["x", "ä ", "/*", "{}", "*/ "]).repeat(rng.range(1, line)));
        if rng.pct(50) {
            s.push('\n');
        }
        s.push_str(&template_text(rng));
    }
    for _ in 0..rng.below(4) {
        s.push_str(&format!("/*{{{}}}*/", rng.pick(&KEYS)));
    }
    s
}

fn some_emit(rng: &mut Rng) -> Emit {
    match rng.below(8) {
        0 => Emit::Counter,
        1 => Emit::Format(String::from_utf8_lossy(&blob(rng)).into_owned()),
        2 => Emit::Nested(format!("/*{{a}}*/{}/*{{b}}*/", rng.pick(&["", "-", "/*{", "\n"]))),
        _ => Emit::Chunks((0..rng.below(4)).map(|_| blob(rng)).collect()),
    }
}

const KINDS: [ErrorKind; 5] =
    [ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WriteZero, ErrorKind::WouldBlock, ErrorKind::PermissionDenied];

/// One instantiation; the bytes that arrived and whether it succeeded.
fn instantiate(t: &str, subs: &BTreeMap<&'static str, Emit>, fault: Fault, times: usize) -> (Sink, Result<(), String>) {
    let template = Template::new(t);
    let mut tw = template.writer();
    for (i, (k, e)) in subs.iter().enumerate() {
        // the writer registered last is the one that counts
        if (t.len() + i) % 5 == 0 {
            tw.substitute(k, move |w| write!(w, "replaced"));
        }
        let count = Cell::new(0);
        tw.substitute(k, move |w| emit(e, &count, w));
    }
    let mut sink = Sink::new(fault);
    let mut r = Ok(());
    for _ in 0..times {
        r = match guard(|| tw.write(&mut sink)) {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) => Err(format!("error {}", e)),
            Err(p) => Err(format!("panic {}", p)),
        };
        if r.is_err() {
            break;
        }
    }
    (sink, r)
}

fn show(t: &str, subs: &BTreeMap<&'static str, Emit>, fault: Fault) -> String {
    format!("template {:?}\nwriters {:?}\noutput writer {:?}", t, subs, fault)
}

fn templates(ctx: &'static Ctx, texts: &[(String, String)]) {
    let n = ctx.scale(4000, 40000);
    par_map(texts.len() + n, |i| {
        if ctx.enough() {
            return;
        }
        let mut rng = ctx.rng("tpl", i as u64);
        let (name, t) = match texts.get(i) {
            Some((n, t)) => (n.clone(), t.clone()),
            None if i % 130 == 9 => {
                ctx.count("templates of many thousand characters", 1);
                (format!("long-{}", i), long_text(&mut rng))
            }
            None => (format!("random-{}", i), template_text(&mut rng)),
        };
        let mut keys: BTreeSet<&'static str> = KEYS.into_iter().collect();
        let long = name.starts_with("long-");
        if i < texts.len() || long {
            for p in scan(&t) {
                if let Part::Hole(k) = p {
                    keys.insert(Box::leak(k.into_boxed_str()));
                }
            }
        }
        let mut subs: BTreeMap<&'static str, Emit> = keys.into_iter().map(|k| (k, some_emit(&mut rng))).collect();
        if long {
            // a nested template without its writers would end most of these early
            for e in subs.values_mut() {
                if matches!(e, Emit::Nested(t) if t.contains("/*{/*{") || t.contains("/*{a}*//*{/")) {
                    *e = Emit::Format("{}".into());
                }
            }
        }
        // About half of the other cases miss a writer or have one that fails.
        if !(i < texts.len() || long) || rng.pct(50) {
            let used: Vec<String> =
                scan(&t).into_iter().filter_map(|p| if let Part::Hole(k) = p { Some(k) } else { None }).collect();
            if !used.is_empty() {
                let k = rng.pick(&used).clone();
                match rng.below(4) {
                    0 => {
                        subs.retain(|x, _| *x != k);
                    }
                    1 => {
                        if let Some(e) = subs.get_mut(k.as_str()) {
                            *e = Emit::Fail(blob(&mut rng), *rng.pick(&KINDS));
                        }
                    }
                    _ => {}
                }
            }
        }
        ctx.case(&name, || show(&t, &subs, Fault::None), || {
            for p in scan(&t) {
                match p {
                    Part::Hole(k) => {
                        ctx.count("placeholders", 1);
                        if k.is_empty() {
                            ctx.count("empty placeholders", 1);
                        }
                    }
                    Part::Text(s) => {
                        if s.contains("/*{") || s.contains("}*/") {
                            ctx.count("texts that nearly are placeholders", 1);
                        }
                    }
                }
            }
            let times = if i % 7 == 0 { 2 } else { 1 };
            let mut counts = BTreeMap::new();
            let mut w = want(&t, &subs, &mut counts);
            if times == 2 {
                if let Want::Whole(first) = &w {
                    let mut all = first.clone();
                    if let Want::Whole(second) = want(&t, &subs, &mut counts) {
                        all.extend(second);
                    }
                    w = Want::Whole(all);
                }
            }
            let len = match &w {
                Want::Whole(v) | Want::Refusal(v, _) => v.len(),
            };
            let mut faults = vec![Fault::None, Fault::Short(1), Fault::Short(3), Fault::Interrupt(1), Fault::Interrupt(1000)];
            let step = 1 + len / if len > 20000 { 20 } else { 400 };
            for at in (0..=len).step_by(step).chain([len]) {
                faults.push(if at % 5 == 2 { Fault::Zero(at) } else { Fault::Error(at, KINDS[at % 5]) });
            }
            for f in faults {
                let (sink, r) = instantiate(&t, &subs, f, times);
                ctx.evals(1);
                ctx.count("bytes written", sink.got.len() as u64);
                if f != Fault::None {
                    ctx.count(if sink.failed { "faults that struck" } else { "faults past the end, or harmless" }, 1);
                }
                ctx.distinct(mix(&[hash_str(&t), hash_str(&format!("{:?}", subs)), hash_str(&format!("{:?}", f))]));
                let detail = |what: &str| {
                    format!(
                        "{}\n{}\nresult {:?}\nwritten  {:?}\nexpected {:?}",
                        what,
                        show(&t, &subs, f),
                        r,
                        String::from_utf8_lossy(&sink.got),
                        match &w {
                            Want::Whole(v) => String::from_utf8_lossy(v).into_owned(),
                            Want::Refusal(v, why) => format!("{} then failure: {}", String::from_utf8_lossy(v), why),
                        }
                    )
                };
                if sink.failed && r.is_ok() {
                    ctx.violation(
                        &format!("swallowed-{}", name),
                        "instantiating a template succeeds though its output could not be written",
                        detail("the output writer failed"),
                    );
                    return;
                }
                match &w {
                    Want::Whole(v) => {
                        if r.is_ok() && sink.got != *v {
                            ctx.violation(&format!("text-{}", name), "a template is not filled in exactly", detail("other bytes"));
                            return;
                        }
                        if r.is_err() && !sink.failed {
                            ctx.violation(
                                &format!("refusal-{}", name),
                                "instantiating a template fails though nothing is missing",
                                detail("failure"),
                            );
                            return;
                        }
                        if !v.starts_with(&sink.got) {
                            ctx.violation(
                                &format!("prefix-{}", name),
                                "the bytes written before a fault are not the start of the expected text",
                                detail("other bytes before the fault"),
                            );
                            return;
                        }
                        if f == Fault::None && long {
                            ctx.count("templates of many thousand characters filled in", 1);
                        }
                        if f == Fault::None {
                            ctx.count("templates filled in", 1);
                        }
                    }
                    Want::Refusal(v, why) => {
                        if f == Fault::None {
                            ctx.count(if why.starts_with("no") { "missing writers" } else { "failing writers" }, 1);
                        }
                        if r.is_ok() {
                            ctx.violation(
                                &format!("silent-{}", name),
                                "instantiating a template succeeds though a writer is missing or failed",
                                detail(why),
                            );
                            return;
                        }
                        if !v.starts_with(&sink.got) {
                            ctx.violation(
                                &format!("prefix-{}", name),
                                "the bytes written before a failure are not the start of the expected text",
                                detail("other bytes before the failure"),
                            );
                            return;
                        }
                    }
                }
                if f == Fault::Short(3) && i % 211 == 3 {
                    ctx.sample(|| format!("{}: {:?} -> {:?} ({:?})", name, t, String::from_utf8_lossy(&sink.got), r));
                }
            }
        });
    });
}

/// Names that are parts of each other, differ in case, or are odd.
const NAMES: [&str; 14] = [
    "lexer.rs", "parser.rs", "tokens.h", "table.txt", "parser", "parser.h", "parser.cpp", "parser_impl.h", "Parser.h", "table", "", "t", "lexer", "parser.rs.bak",
];

/// Texts handed to a set of writers: each reaches the writer of its name and no other.
fn writers(ctx: &'static Ctx) {
    let n = ctx.scale(6000, 60000);
    par_map(n, |i| {
        if ctx.enough() {
            return;
        }
        let mut rng = ctx.rng("writers", i as u64);
        let mut names = NAMES.to_vec();
        rng.shuffle(&mut names);
        #[allow(non_snake_case)]
        let FILES: [&'static str; 4] = if rng.pct(40) { ["parser", "parser.h", "parser.rs", "parser.cpp"] } else { [names[0], names[1], names[2], names[3]] };
        let texts: Vec<(usize, Vec<u8>, bool)> = (0..rng.range(1, 6))
            .map(|_| (rng.below(4), (0..rng.below(5)).flat_map(|_| blob(&mut rng)).collect(), rng.pct(10)))
            .collect();
        let fault = |rng: &mut Rng| match rng.below(7) {
            0 => Fault::Short(2),
            1 => Fault::Interrupt(3),
            2 => Fault::Error(rng.below(30), *rng.pick(&KINDS)),
            3 => Fault::Flush,
            4 => Fault::Zero(rng.below(30)),
            _ => Fault::None,
        };
        let own: Vec<Option<Fault>> = (0..4).map(|_| if rng.pct(50) { Some(fault(&mut rng)) } else { None }).collect();
        let default = fault(&mut rng);
        let refuse = if rng.pct(15) { Some(rng.below(4)) } else { None };
        let buffered = rng.pct(40);
        let desc = format!(
            "names {:?}\ntexts {:?}\nown writers {:?}\ndefault {:?} refusing {:?} buffered {}",
            FILES, texts, own, default, refuse, buffered
        );
        ctx.case(&format!("writers-{}", i), || desc.clone(), || {
            ctx.evals(1);
            ctx.distinct(hash_str(&desc));
            let mut sinks: Vec<Sink> = own.iter().map(|f| Sink::new(f.unwrap_or(Fault::None))).collect();
            let log: Rc<RefCell<Vec<(&'static str, Sink)>>> = Rc::new(RefCell::new(Vec::new()));
            struct Shared(Rc<RefCell<Vec<(&'static str, Sink)>>>, usize, Vec<u8>, bool);
            impl Write for Shared {
                fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                    if self.3 {
                        self.2.extend_from_slice(b);
                        return Ok(b.len());
                    }
                    self.0.borrow_mut()[self.1].1.write(b)
                }
                fn flush(&mut self) -> std::io::Result<()> {
                    let b = std::mem::take(&mut self.2);
                    let s = &mut self.0.borrow_mut()[self.1].1;
                    s.write_all(&b)?;
                    s.flush()
                }
            }
            let mut results = Vec::new();
            {
                let log2 = log.clone();
                let mut gcw = GeneratedCodeWriter::with_default(move |name| {
                    if refuse.map(|r| FILES[r]) == Some(name) {
                        return Err(Error::new(ErrorKind::NotFound, "no such place"));
                    }
                    let mut l = log2.borrow_mut();
                    l.push((name, Sink::new(default)));
                    Ok(Shared(log2.clone(), l.len() - 1, Vec::new(), buffered))
                });
                for (k, s) in sinks.iter_mut().enumerate() {
                    if own[k].is_some() {
                        gcw.add_target(FILES[k], s);
                    }
                }
                for (k, t, fails) in &texts {
                    let r = guard(|| {
                        gcw.generate_code(FILES[*k], |w| {
                            w.write_all(t)?;
                            if *fails {
                                return Err(Error::new(ErrorKind::Other, "generator"));
                            }
                            Ok(())
                        })
                    });
                    let ok = matches!(r, Ok(Ok(())));
                    results.push(ok);
                    if !ok {
                        break;
                    }
                }
            }
            let log = log.borrow();
            // What each writer has to hold after the texts that were reported as written.
            let mut expect: Vec<Vec<u8>> = vec![Vec::new(); 4];
            let mut defaults: Vec<(usize, Vec<u8>)> = Vec::new();
            let mut last_failed = false;
            for (j, ok) in results.iter().enumerate() {
                let (k, t, fails) = &texts[j];
                if *ok {
                    if *fails || (own[*k].is_none() && refuse == Some(*k)) {
                        ctx.violation(
                            &format!("writers-silent-{}", i),
                            "handing over a text succeeds though its generator or its writer failed",
                            format!("text {}\n{}", j, desc),
                        );
                        return;
                    }
                    if own[*k].is_some() {
                        expect[*k].extend_from_slice(t);
                    } else {
                        defaults.push((*k, t.clone()));
                    }
                } else {
                    last_failed = true;
                    let excused = *fails
                        || (own[*k].is_some() && sinks[*k].failed)
                        || (own[*k].is_none() && (refuse == Some(*k) || log.last().map(|l| l.1.failed).unwrap_or(false)));
                    if !excused {
                        ctx.violation(
                            &format!("writers-refusal-{}", i),
                            "handing over a text fails though nothing went wrong",
                            format!("text {}\n{}", j, desc),
                        );
                        return;
                    }
                }
            }
            let failing = if last_failed { results.len().checked_sub(1).map(|j| texts[j].clone()) } else { None };
            for k in 0..4 {
                let mut e = expect[k].clone();
                let whole = e.len();
                if let Some((f, t, _)) = &failing {
                    if *f == k && own[k].is_some() {
                        e.extend_from_slice(t);
                    }
                }
                let got = &sinks[k].got;
                if !e.starts_with(got) || got.len() < whole || (own[k].is_none() && !got.is_empty()) {
                    ctx.violation(
                        &format!("writers-text-{}", i),
                        "a target does not hold the texts handed over under its name",
                        format!("{}\n{:?} expected, {:?} found\n{}", FILES[k], e, got, desc),
                    );
                    return;
                }
                if own[k].is_some() && !last_failed && !results.is_empty() && whole > 0 && sinks[k].flushed != Some(got.len()) {
                    ctx.violation(
                        &format!("writers-flush-{}", i),
                        "a target is not flushed after its text was reported as written",
                        format!("{}\n{}", FILES[k], desc),
                    );
                    return;
                }
            }
            let held: Vec<(&str, Vec<u8>)> = log.iter().map(|(n, s)| (*n, s.got.clone())).collect();
            for (j, (k, t)) in defaults.iter().enumerate() {
                if held.get(j) != Some(&(FILES[*k], t.clone())) {
                    ctx.violation(
                        &format!("writers-default-{}", i),
                        "a text handed over under a name without target did not reach its default writer",
                        format!("{} {:?} expected, {:?} found\n{}", FILES[*k], t, held.get(j), desc),
                    );
                    return;
                }
                ctx.count("texts that reached a default writer", 1);
            }
            ctx.count("texts handed over", results.iter().filter(|r| **r).count() as u64);
            ctx.count("texts whose failure was reported", last_failed as u64);
        });
    });
}

fn template_files(dir: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        let name = e.file_name();
        if p.is_dir() {
            if name != "target" && !name.to_string_lossy().starts_with('.') {
                template_files(&p, out);
            }
        } else if name.to_string_lossy().ends_with(".tpl") {
            out.push(p);
        }
    }
}

/// True when the text consists of the fixed parts of the template, in order, with anything in
/// place of the placeholders.
fn made_from(parts: &[Part], text: &str) -> bool {
    let fixed: Vec<&str> = parts.iter().filter_map(|p| if let Part::Text(s) = p { Some(s.as_str()) } else { None }).collect();
    if fixed.len() == 1 {
        return text == fixed[0];
    }
    let (first, last) = (fixed[0], fixed[fixed.len() - 1]);
    if text.len() < first.len() + last.len() || !text.starts_with(first) || !text.ends_with(last) {
        return false;
    }
    let mut rest = &text[first.len()..text.len() - last.len()];
    for f in &fixed[1..fixed.len() - 1] {
        match rest.find(f) {
            Some(i) => rest = &rest[i + f.len()..],
            None => return false,
        }
    }
    true
}

/// No generated file holds a placeholder, and one made from a template file of its name holds the
/// fixed text of that template.
fn generated(ctx: &'static Ctx, texts: &[(String, String)]) {
    let n = ctx.scale(16, 100);
    par_map(n * COMBOS.len(), |j| {
        if ctx.enough() {
            return;
        }
        let (l, a) = COMBOS[j % COMBOS.len()];
        let mut rng = ctx.rng("generated", (j / COMBOS.len()) as u64);
        let text = front::rich_spec(&mut rng).text();
        ctx.case(&format!("generated-{}", j), || text.clone(), || {
            let (r, files) = reference(ctx, &format!("tpl-{}", j), &text, l, a, true, true);
            if !r.done() {
                ctx.count("generations refused", 1);
                return;
            }
            for (name, bytes) in &files {
                ctx.evals(1);
                let got = String::from_utf8_lossy(bytes);
                ctx.count("generated files read", 1);
                ctx.distinct(hash_bytes(bytes));
                if let Some(Part::Hole(k)) = scan(&got).iter().find(|p| matches!(p, Part::Hole(_))) {
                    ctx.violation(
                        &format!("left-{}-{}", lang_name(l), name),
                        "a generated file still holds a placeholder",
                        format!("{} {} {}: placeholder '{}'\ngrammar\n{}", lang_name(l), a.name(), name, k, text),
                    );
                    return;
                }
                if l != L::Cpp {
                    continue;
                }
                let of: Vec<&(String, String)> =
                    texts.iter().filter(|(p, _)| p.rsplit('/').next() == Some(&format!("{}.tpl", name))).collect();
                if of.is_empty() {
                    ctx.count("generated files without a template file of their name", 1);
                    continue;
                }
                if !of.iter().any(|(_, t)| made_from(&scan(t), &got)) {
                    ctx.violation(
                        &format!("fixed-{}-{}", lang_name(l), name),
                        "a generated file does not hold the fixed text of its template in order",
                        format!("{} {} {}\ntemplates {:?}\ngrammar\n{}\nfile\n{}", lang_name(l), a.name(), name, of.iter().map(|x| &x.0).collect::<Vec<_>>(), text, got),
                    );
                    return;
                }
                ctx.count("generated files holding their template's text", 1);
            }
        });
    });
}

pub fn c26(ctx: &'static Ctx) {
    ctx.level("fault_enumeration");
    ctx.describe(
        "instantiations of random and of the shipped templates, with writers that are missing, fail, nest templates or emit placeholder-like text and arbitrary bytes, each with an undisturbed output, short and interrupted writes, and a fault at every write offset; sequences of texts handed to sets of writers; generated C++ files against the shipped templates; distinct by template, writers and fault",
        &["output failures surface in write or flush"],
    );
    let mut paths = Vec::new();
    template_files(Path::new("/repo"), &mut paths);
    paths.sort();
    let texts: Vec<(String, String)> = paths
        .iter()
        .filter_map(|p| Some((p.display().to_string(), std::fs::read_to_string(p).ok()?)))
        .collect();
    ctx.count("template files in the tree", texts.len() as u64);
    templates(ctx, &texts);
    writers(ctx);
    generated(ctx, &texts);
}
