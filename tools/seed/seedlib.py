"""Helpers of the demonstrations: run the generator of the repository in the current directory,
compile what it emits and drive it. Everything is written to a scratch directory."""
import atexit, os, re, shutil, subprocess, sys, tempfile

REPO = os.getcwd()
HERE = os.path.dirname(os.path.abspath(__file__))
W = tempfile.mkdtemp(prefix="demo-")
atexit.register(lambda: shutil.rmtree(W, ignore_errors=True))
ENV = dict(os.environ)
ENV.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TARGET_DIR=REPO + "/target", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
           HOME=os.environ.get("HOME", "/root"),
           PATH="/usr/local/bin:/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))
CLI = REPO + "/target/debug/lapex-cli"
_n = [0]


def sh(args, timeout=200, **k):
    return subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=k.pop("env", ENV), timeout=timeout, errors="replace", **k)


def build():
    r = sh(["cargo", "build", "-q", "--offline", "--locked", "-p", "lapex-cli"], cwd=REPO)
    if r.returncode:
        sys.exit("cannot build: " + r.stderr[-2000:])


build()


def path(*p):
    return os.path.join(W, *p)


def write(name, text):
    p = path(name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode())
    return p


def gen(grammar, lang, alg="lalr", *opts):
    """(status, stderr, directory)"""
    _n[0] += 1
    g = write("g%d.lapex" % _n[0], grammar)
    d = path("out%d" % _n[0])
    os.makedirs(d)
    r = sh([CLI, "generate", g, "-l", lang, "-a", alg, "--target", d, *opts])
    return r.returncode, r.stderr, d


def must(grammar, lang, alg="lalr", *opts):
    c, e, d = gen(grammar, lang, alg, *opts)
    check(c == 0, "generation fails: %s" % e[-600:])
    return d


def check(ok, why):
    if not ok:
        print("WRONG:", why)
        sys.exit(1)


def rustc(d, main):
    with open(d + "/main.rs", "w") as f:
        f.write(main)
    r = sh(["rustc", "--edition", "2021", "-Awarnings", "-o", d + "/prog", d + "/main.rs"])
    check(r.returncode == 0, "does not compile: " + r.stderr[-1500:])
    return d + "/prog"


def cxx(d, main, *flags):
    with open(d + "/main.cpp", "w") as f:
        f.write(main)
    src = [d + "/" + n for n in os.listdir(d) if n.endswith(".cpp")]
    r = sh(["g++", "-std=c++17", "-w", "-include", "cstdint", "-include", "stdexcept", "-I", d, *flags, "-o", d + "/prog", *src])
    check(r.returncode == 0, "does not compile: " + r.stderr[-1500:])
    return d + "/prog"


def run(prog, *args, **k):
    try:
        r = sh([prog, *args], timeout=k.pop("timeout", 20), **k)
    except subprocess.TimeoutExpired:
        check(False, "does not end")
    return r.stdout.strip() if r.returncode == 0 else "EXIT %d %s" % (r.returncode, (r.stdout.strip() + " " + r.stderr.strip()[-300:]))


def tokens(d):
    t = re.search(r"enum\s+TokenType\s*\{([^}]*)\}", open(d + "/tokens.rs").read()).group(1)
    return [x.strip() for x in t.split(",") if x.strip()]


LEX_RS = """
mod tokens; mod lexer;
fn main() {
    for a in std::env::args().skip(1) {
        let mut l = lexer::Lexer::new(&a);
        let mut o = Vec::new();
        for _ in 0..1000 {
            match l.next() {
                Ok(tokens::TokenType::EndOfFile) => { o.push(format!("EOF@{:?}", l.span())); break; }
                Ok(t) => o.push(format!("{:?}<{}>", t, l.slice())),
                Err(_) => { o.push(format!("ERR<{}>", l.slice())); if l.slice().is_empty() { break; } }
            }
        }
        println!("{}", o.join(" "));
    }
}
"""


def lex_rust(grammar, *texts):
    d = must(grammar, "rust")
    return run(rustc(d, LEX_RS), *texts).split("\n")


LEX_CPP = """
#include "lexer.h"
#include <sstream>
#include <iostream>
int main(int n, char** a) {
    for (int i = 1; i < n; i++) {
        std::istringstream in(a[i]);
        lexer::Lexer l(in);
        for (int k = 0; k < 1000; k++) {
            auto t = l.next();
            std::cout << (k ? " " : "") << lexer::get_token_name(t);
            if (t == lexer::TokenType::TK_EOF || t == lexer::TokenType::TK_ERR) break;
            std::cout << "@" << l.start() << ".." << l.end();
        }
        std::cout << "\\n";
    }
}
"""


def lex_cpp(grammar, *texts):
    d = must(grammar, "cpp")
    for f in ("parser.cpp", "parser.h", "parser_impl.h", "visitor.h"):
        os.remove(d + "/" + f)
    return run(cxx(d, LEX_CPP), *texts).split("\n")


class RustParser:
    """call(words...) -> one line per word: events, then OK or BAD"""

    def __init__(self, grammar, alg="lalr", d=None):
        d = d or must(grammar, "rust", alg)
        text = open(d + "/parser.rs").read()
        glr = alg == "glr"
        trait = text[text.index("trait Visitor"):]
        trait = trait[:trait.index("pub struct")]
        fns = re.findall(r"fn\s+(reduce_\w+)\s*\(", trait)
        t = tokens(d)
        pick = ",".join('"%s" => T::%s' % (x, x) for x in t)
        item = "Ok::<(T, usize), E>((t, n))" if glr else "(t, n)"
        main = """
mod tokens; mod parser;
use tokens::TokenType as T;
#[derive(Debug)] struct E; impl std::error::Error for E {}
impl std::fmt::Display for E { fn fmt(&self, _f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
struct V;
impl parser::Visitor<usize> for V {
    fn shift(&mut self, t: T, d: usize) { print!("{:?}#{} ", t, d); }
    %s
}
fn main() {
    for a in std::env::args().skip(1) {
        let w: Vec<&str> = a.split_whitespace().collect();
        let mut i = 0;
        let source = || {
            let n = i; i += 1;
            let t = if n < w.len() { match w[n] { %s, _ => panic!() } } else { if n > w.len() { print!("PAST-END "); } T::EndOfFile };
            %s
        };
        let r = { let mut p = parser::Parser::new(source, V); p.parse() };
        match r { Ok(()) => println!("OK"), Err(e) => { let m = e.to_string().replace("\\n", "; "); println!("BAD {}", m) } }
    }
}
""" % ("\n".join('fn %s(&mut self) { print!("%s "); }' % (f, f) for f in fns), pick, item)
        self.prog = rustc(d, main)

    def __call__(self, *words):
        return run(self.prog, *words).split("\n")

    def ok(self, word):
        return self(word)[0].endswith("OK")


class CppParser:
    def __init__(self, grammar, alg="lalr", flags=(), d=None):
        d = d or must(grammar, "cpp", alg, "--no-lexer")
        vis = open(d + "/visitor.h").read()
        fns = re.findall(r"virtual\s+void\s+(\w+)\s*\(\s*\)", vis)
        tok = "shift" if "shift(" in vis else "token"
        names = re.findall(r"\b(TK_\w+)\b", open(d + "/tokens.h").read())
        pick = "".join('if (s == "%s") return lexer::TokenType::%s;' % (n[3:], n) for n in names)
        main = """
#include "parser_impl.h"
#include <iostream>
#include <sstream>
#include <vector>
struct V : parser::Visitor<int> {
    void %s(lexer::TokenType t, int d) override { std::cout << lexer::get_token_name(t) << "#" << d << " "; }
    %s
};
static lexer::TokenType pick(const std::string& s) { %s return lexer::TokenType::TK_ERR; }
int main(int n, char** a) {
    for (int i = 1; i < n; i++) {
        std::istringstream in(a[i]); std::vector<std::string> w; std::string s;
        while (in >> s) w.push_back(s);
        size_t k = 0; V v;
        parser::Parser<int> p([&]() {
            size_t m = k++;
            if (m > w.size()) std::cout << "PAST-END ";
            return std::make_pair(m < w.size() ? pick(w[m]) : lexer::TokenType::TK_EOF, (int) m);
        }, v);
        try { p.parse(); std::cout << "OK" << std::endl; }
        catch (std::runtime_error& e) { std::cout << "BAD " << e.what() << std::endl; }
    }
}
""" % (tok, "\n".join('void %s() override { std::cout << "%s "; }' % (f, f) for f in fns), pick)
        self.prog = cxx(d, main, *flags)

    def __call__(self, *words):
        return run(self.prog, *words).split("\n")

    def ok(self, word):
        return self(word)[0].endswith("OK")


def expect(got, want):
    check(got == want, "got %r, expected %r" % (got, want))


def dump_rules(grammar):
    """What the front end reads, through a program of its own."""
    d = path("dump")
    if not os.path.exists(d + "/Cargo.toml"):
        write("dump/Cargo.toml", '[package]\nname = "dump"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nlapex-input = { path = "%s/lapex-input" }\nlapex-input-gen = { path = "%s/lapex-input-gen" }\n' % (REPO, REPO))
        write("dump/src/main.rs", """
use lapex_input::LapexInputParser;
fn main() {
    let t = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let r = lapex_input_gen::GeneratedLapexInputParser {}.parse_lapex(&t).unwrap();
    for x in &r.token_rules { println!("{:?}", x); }
    for x in &r.production_rules { println!("{:?}", x); }
    println!("{:?}", r.entry_rule);
}
""")
        shutil.copy(REPO + "/Cargo.lock", d + "/Cargo.lock")
    p = write("dump.lapex", grammar)
    r = sh(["cargo", "run", "-q", "--offline", "--manifest-path", d + "/Cargo.toml", "--", p], env=dict(ENV, CARGO_TARGET_DIR=path("dumptarget")))
    return r.stdout if r.returncode == 0 else "FAILS " + r.stderr[-500:]
