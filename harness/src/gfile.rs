//! Our own reader of grammar files: hand-written scanner and recursive descent, with positions.
use crate::model::Pat;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum K {
    KwToken,
    KwEntry,
    KwProd,
    Sym(char),
    Digit,
    Ident,
    Str,
    Regex,
    Eof,
}

#[derive(Clone, Debug)]
pub struct T {
    pub k: K,
    pub start: usize,
    pub end: usize,
}

/// Longest viable prefix, as the grammar of grammar files prescribes.
pub fn scan(text: &str) -> Result<Vec<T>, String> {
    let cs: Vec<(usize, char)> = text.char_indices().collect();
    let at = |i: usize| cs.get(i).map(|c| c.1);
    let off = |i: usize| cs.get(i).map(|c| c.0).unwrap_or(text.len());
    let mut v = Vec::new();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i].1;
        let s = i;
        let k = match c {
            ' ' | '\t' | '\n' => {
                i += 1;
                continue;
            }
            '=' | ';' | '(' | ')' | '[' | ']' | '?' | '!' | '*' | '+' | '|' => {
                i += 1;
                K::Sym(c)
            }
            '0' => {
                i += 1;
                K::Digit
            }
            '1'..='9' => {
                while matches!(at(i), Some('0'..='9')) {
                    i += 1;
                }
                K::Digit
            }
            'a'..='z' | 'A'..='Z' => {
                while matches!(at(i), Some('a'..='z' | 'A'..='Z' | '0'..='9' | '_')) {
                    i += 1;
                }
                match &text[off(s)..off(i)] {
                    "token" => K::KwToken,
                    "entry" => K::KwEntry,
                    "prod" => K::KwProd,
                    _ => K::Ident,
                }
            }
            '"' | '/' => {
                i += 1;
                loop {
                    match at(i) {
                        None => return Err(format!("unterminated {}", c)),
                        Some('\n') => return Err(format!("line break in {}", c)),
                        Some('\\') => {
                            match at(i + 1) {
                                None | Some('\n') => return Err("bad escape".into()),
                                _ => {}
                            }
                            i += 2;
                        }
                        Some(x) if x == c => {
                            i += 1;
                            break;
                        }
                        Some(_) => i += 1,
                    }
                }
                if c == '"' {
                    K::Str
                } else {
                    K::Regex
                }
            }
            _ => return Err(format!("character {:?}", c)),
        };
        v.push(T { k, start: off(s), end: off(i) });
    }
    v.push(T { k: K::Eof, start: text.len(), end: text.len() });
    Ok(v)
}

#[derive(Clone, Debug, PartialEq)]
pub enum TokText {
    Lit(String),
    Re(String),
}

#[derive(Clone, Debug)]
pub enum Decl {
    Entry(String),
    Tok { name: String, prec: Option<String>, pat: TokText },
    Prod { name: String, tag: Option<String>, pat: Pat },
}

#[derive(Clone, Debug)]
pub struct Placed {
    pub decl: Decl,
    pub start: usize,
    pub end: usize,
}

struct P<'a> {
    text: &'a str,
    t: Vec<T>,
    i: usize,
    depth: usize,
}

impl<'a> P<'a> {
    fn peek(&self) -> &K {
        &self.t[self.i].k
    }
    fn txt(&self, i: usize) -> String {
        self.text[self.t[i].start..self.t[i].end].to_string()
    }
    fn eat(&mut self, k: K) -> Result<usize, String> {
        if *self.peek() == k {
            self.i += 1;
            Ok(self.i - 1)
        } else {
            Err(format!("expected {:?}, got {:?} at byte {}", k, self.peek(), self.t[self.i].start))
        }
    }
    fn decl(&mut self) -> Result<Placed, String> {
        let start = self.t[self.i].start;
        let decl = match self.peek() {
            K::KwEntry => {
                self.i += 1;
                let n = self.eat(K::Ident)?;
                Decl::Entry(self.txt(n))
            }
            K::KwToken => {
                self.i += 1;
                let n = self.eat(K::Ident)?;
                let mut prec = None;
                if *self.peek() == K::Sym('[') {
                    self.i += 1;
                    let d = self.eat(K::Digit)?;
                    prec = Some(self.txt(d));
                    self.eat(K::Sym(']'))?;
                }
                self.eat(K::Sym('='))?;
                let pat = match self.peek() {
                    K::Str | K::Regex => {
                        let s = self.txt(self.i);
                        let inner = s[1..s.len() - 1].to_string();
                        let p = if *self.peek() == K::Str { TokText::Lit(inner) } else { TokText::Re(inner) };
                        self.i += 1;
                        p
                    }
                    k => return Err(format!("expected a string or regex, got {:?}", k)),
                };
                Decl::Tok { name: self.txt(n), prec, pat }
            }
            K::KwProd => {
                self.i += 1;
                let n = self.eat(K::Ident)?;
                let mut tag = None;
                if *self.peek() == K::Sym('[') {
                    self.i += 1;
                    let d = self.eat(K::Ident)?;
                    tag = Some(self.txt(d));
                    self.eat(K::Sym(']'))?;
                }
                self.eat(K::Sym('='))?;
                let pat = self.pattern()?;
                Decl::Prod { name: self.txt(n), tag, pat }
            }
            k => return Err(format!("expected a declaration, got {:?}", k)),
        };
        let e = self.eat(K::Sym(';'))?;
        Ok(Placed { decl, start, end: self.t[e].end })
    }
    fn pattern(&mut self) -> Result<Pat, String> {
        self.depth += 1;
        if self.depth > 300 {
            return Err("too deep for this reader".into());
        }
        let r = if *self.peek() == K::Sym('!') {
            self.i += 1;
            Ok(Pat::Eps)
        } else {
            let mut alts = vec![self.concat()?];
            while *self.peek() == K::Sym('|') {
                self.i += 1;
                alts.push(self.concat()?);
            }
            Ok(if alts.len() == 1 { alts.pop().unwrap() } else { Pat::Alt(alts) })
        };
        self.depth -= 1;
        r
    }
    fn concat(&mut self) -> Result<Pat, String> {
        let mut v = vec![self.unary()?];
        while matches!(self.peek(), K::Ident | K::Sym('(')) {
            v.push(self.unary()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Pat::Seq(v) })
    }
    fn unary(&mut self) -> Result<Pat, String> {
        let item = match self.peek() {
            K::Ident => {
                self.i += 1;
                Pat::Ref(self.txt(self.i - 1))
            }
            K::Sym('(') => {
                self.i += 1;
                let p = self.pattern()?;
                self.eat(K::Sym(')'))?;
                p
            }
            k => return Err(format!("expected a name or '(', got {:?}", k)),
        };
        Ok(match self.peek() {
            K::Sym('?') => {
                self.i += 1;
                Pat::Opt(Box::new(item))
            }
            K::Sym('*') => {
                self.i += 1;
                Pat::Star(Box::new(item))
            }
            K::Sym('+') => {
                self.i += 1;
                Pat::Plus(Box::new(item))
            }
            _ => item,
        })
    }
}

pub fn parse(text: &str) -> Result<Vec<Placed>, String> {
    let t = scan(text)?;
    let mut p = P { text, t, i: 0, depth: 0 };
    let mut v = vec![p.decl()?];
    while *p.peek() != K::Eof {
        v.push(p.decl()?);
    }
    Ok(v)
}

/// Line and column (in characters, from 1) of a byte offset.
pub fn line_col(text: &str, off: usize) -> (usize, usize) {
    let before = &text[..off];
    let line = before.matches('\n').count() + 1;
    let last = before.rfind('\n').map(|i| i + 1).unwrap_or(0);
    (line, before[last..].chars().count() + 1)
}
