//! Reference for grammar files: an independent parser of the grammar language (written from
//! `meta/src/grammar.pest`), import resolution, a printer and a generator of projects.
//! It shares no code with the loader.
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Tr {
    No,
    Opt,
    Man,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Args {
    Call(Vec<Expr>),
    Slice(Option<isize>, Option<isize>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Expr {
    Str(String),
    Insens(String),
    Range(char, char),
    Path(Vec<String>, Option<Args>),
    Pos(Box<Expr>),
    Neg(Box<Expr>),
    Seq(Box<Expr>, Box<Expr>, Tr),
    Choice(Box<Expr>, Box<Expr>),
    Opt(Box<Expr>),
    Rep(Box<Expr>),
    Plus(Box<Expr>),
    RepRange(Box<Expr>, Option<usize>, Option<usize>),
    Sep(Box<Expr>, Tr),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RuleG {
    pub doc: Vec<String>,
    pub name: String,
    pub args: Vec<String>,
    pub silent: bool,
    pub expr: Expr,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ImportG {
    pub path: Vec<String>,
    /// The path was written with arguments (not allowed).
    pub args: bool,
    pub file: Option<String>,
    pub alias: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item {
    Import(ImportG),
    Rule(RuleG),
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct FileG {
    pub docs: Vec<String>,
    pub items: Vec<Item>,
}

// ---------------------------------------------------------------------------------------------
// Reference parser

/// `None`: does not match. `Err`: matched, but the value is not allowed.
struct P<'a> {
    s: &'a str,
    b: &'a [u8],
    /// First complaint about a value.
    bad: Option<String>,
}

fn is_alpha(c: u8) -> bool {
    c == b'_' || c.is_ascii_alphabetic()
}

enum Term {
    Expr(Expr),
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Infix {
    Seq(Tr),
    Choice,
}

impl<'a> P<'a> {
    fn at(&self, p: usize) -> u8 {
        self.b.get(p).copied().unwrap_or(0)
    }
    fn lit(&self, p: usize, t: &str) -> Option<usize> {
        self.b[p..].starts_with(t.as_bytes()).then_some(p + t.len())
    }
    fn newline(&self, p: usize) -> Option<usize> {
        self.lit(p, "\n").or_else(|| self.lit(p, "\r\n"))
    }
    fn white(&self, mut p: usize) -> usize {
        loop {
            p = match self.at(p) {
                b' ' | b'\t' | b'\n' if p < self.b.len() => p + 1,
                b'\r' if self.at(p + 1) == b'\n' => p + 2,
                _ => return p,
            }
        }
    }
    fn line(&self, mut p: usize) -> usize {
        while p < self.b.len() && self.newline(p).is_none() {
            p += 1;
        }
        p
    }
    fn block(&self, p: usize) -> Option<usize> {
        let mut p = self.lit(p, "/*")?;
        loop {
            if let Some(q) = self.block(p) {
                p = q;
            } else if let Some(q) = self.lit(p, "*/") {
                return Some(q);
            } else if p < self.b.len() {
                p += self.s[p..].chars().next().unwrap().len_utf8();
            } else {
                return None;
            }
        }
    }
    fn comment(&self, p: usize) -> Option<usize> {
        if let Some(q) = self.block(p) {
            return Some(q);
        }
        let q = self.lit(p, "//")?;
        if self.at(q) == b'/' || self.at(q) == b'!' {
            return None;
        }
        Some(self.line(q))
    }
    fn skip(&self, p: usize) -> usize {
        let mut p = self.white(p);
        while let Some(q) = self.comment(p) {
            p = self.white(q);
        }
        p
    }
    fn ident(&self, p: usize) -> Option<(usize, String)> {
        if p >= self.b.len() || !is_alpha(self.b[p]) {
            return None;
        }
        let mut q = p + 1;
        while q < self.b.len() && (is_alpha(self.b[q]) || self.b[q].is_ascii_digit()) {
            q += 1;
        }
        Some((q, self.s[p..q].to_string()))
    }
    fn number(&self, p: usize) -> Option<usize> {
        match self.at(p) {
            b'0' => Some(p + 1),
            b'1'..=b'9' => {
                let mut q = p + 1;
                while self.at(q).is_ascii_digit() {
                    q += 1;
                }
                Some(q)
            }
            _ => None,
        }
    }
    fn integer(&self, p: usize) -> Option<usize> {
        let q = if matches!(self.at(p), b'+' | b'-') { p + 1 } else { p };
        self.number(q)
    }
    fn escape(&self, p: usize) -> Option<usize> {
        let p = self.lit(p, "\\")?;
        match self.at(p) {
            b'"' | b'\\' | b'r' | b'n' | b't' | b'0' | b'\'' => Some(p + 1),
            b'x' => (self.at(p + 1).is_ascii_hexdigit() && self.at(p + 2).is_ascii_hexdigit()).then_some(p + 3),
            b'u' => {
                let mut q = self.lit(p + 1, "{")?;
                let mut n = 0;
                while n < 6 && self.at(q).is_ascii_hexdigit() {
                    q += 1;
                    n += 1;
                }
                if n == 0 {
                    return None;
                }
                self.lit(q, "}")
            }
            _ => None,
        }
    }
    fn string(&self, p: usize) -> Option<usize> {
        let mut p = self.lit(p, "\"")?;
        loop {
            if p >= self.b.len() {
                return None;
            }
            match self.b[p] {
                b'"' => return Some(p + 1),
                b'\\' => p = self.escape(p)?,
                _ => p += self.s[p..].chars().next().unwrap().len_utf8(),
            }
        }
    }
    fn raw(&self, p: usize) -> Option<(usize, String)> {
        let p = self.lit(p, "r")?;
        let mut q = p;
        while self.at(q) == b'#' {
            q += 1;
        }
        let start = self.lit(q, "\"")?;
        let close = format!("\"{}", &self.s[p..q]);
        let n = self.s[start..].find(&close)?;
        Some((start + n + close.len(), self.s[start..start + n].to_string()))
    }
    fn character(&self, p: usize) -> Option<usize> {
        let p = self.lit(p, "'")?;
        let q = match self.escape(p) {
            Some(q) => q,
            None => p + self.s[p..].chars().next()?.len_utf8(),
        };
        self.lit(q, "'")
    }
    /// The meaning of the text between the quotes.
    fn value(&mut self, t: &str) -> String {
        let mut out = String::new();
        let mut it = t.chars();
        while let Some(c) = it.next() {
            if c != '\\' {
                out.push(c);
                continue;
            }
            match it.next() {
                Some('r') => out.push('\r'),
                Some('n') => out.push('\n'),
                Some('t') => out.push('\t'),
                Some('0') => out.push('\0'),
                Some('x') => {
                    let h: String = it.by_ref().take(2).collect();
                    let v = u32::from_str_radix(&h, 16).unwrap();
                    if v > 0x7f {
                        self.complain(format!("\\x{h} is not ASCII"));
                    }
                    out.push(char::from_u32(v).unwrap());
                }
                Some('u') => {
                    let h: String = it.by_ref().skip(1).take_while(|c| *c != '}').collect();
                    match char::from_u32(u32::from_str_radix(&h, 16).unwrap()) {
                        Some(c) => out.push(c),
                        None => self.complain(format!("\\u{{{h}}} is not a character")),
                    }
                }
                Some(c) => out.push(c),
                None => unreachable!(),
            }
        }
        out
    }
    fn complain(&mut self, s: String) {
        self.bad.get_or_insert(s);
    }
    fn num<T: std::str::FromStr>(&mut self, a: usize, b: usize) -> Option<T> {
        let r = self.s[a..b].parse().ok();
        if r.is_none() {
            self.complain("number too large".into());
        }
        r
    }
    fn slice(&mut self, p: usize) -> Option<(usize, Args)> {
        let p = self.skip(self.lit(p, "[")?);
        let a = self.integer(p);
        let q = self.lit(self.skip(a.unwrap_or(p)), "..")?;
        let q = self.skip(q);
        let b = self.integer(q);
        let end = self.lit(self.skip(b.unwrap_or(q)), "]")?;
        let lo = a.and_then(|e| self.num(p, e));
        let hi = b.and_then(|e| self.num(q, e));
        Some((end, Args::Slice(lo, hi)))
    }
    fn call(&mut self, p: usize) -> Option<(usize, Args)> {
        let p = self.skip(self.lit(p, "(")?);
        let mut v = vec![];
        let mut q = p;
        if let Some((e, x)) = self.expression(p) {
            v.push(x);
            q = e;
            loop {
                let c = self.skip(q);
                let Some(c) = self.lit(c, ",") else { break };
                let c = self.skip(c);
                match self.expression(c) {
                    Some((e, x)) => {
                        v.push(x);
                        q = e;
                    }
                    None => break,
                }
            }
            let c = self.skip(q);
            q = self.lit(c, ",").unwrap_or(c);
        }
        let end = self.lit(self.skip(q), ")")?;
        Some((end, Args::Call(v)))
    }
    fn path(&mut self, p: usize) -> Option<(usize, Vec<String>, Option<Args>)> {
        let (mut p, id) = self.ident(p)?;
        let mut v = vec![id];
        while let Some(q) = self.lit(self.skip(p), "::") {
            let Some((q, id)) = self.ident(self.skip(q)) else { break };
            v.push(id);
            p = q;
        }
        let q = self.skip(p);
        // Complaints inside a failed attempt do not count.
        let saved = self.bad.clone();
        if let Some((e, a)) = self.call(q) {
            return Some((e, v, Some(a)));
        }
        self.bad = saved.clone();
        if let Some((e, a)) = self.slice(q) {
            return Some((e, v, Some(a)));
        }
        self.bad = saved;
        // The position after the identifiers includes skipped layout.
        Some((q, v, None))
    }
    fn bounded(&mut self, p: usize) -> Option<(usize, Option<usize>, Option<usize>)> {
        let p = self.skip(self.lit(p, "{")?);
        let a = self.number(p);
        let after = self.skip(a.unwrap_or(p));
        if let Some(q) = self.lit(after, "..") {
            let q = self.skip(q);
            let b = self.number(q);
            if let Some(end) = self.lit(self.skip(b.unwrap_or(q)), "}") {
                let lo: Option<usize> = a.and_then(|e| self.num(p, e));
                let hi: Option<usize> = b.and_then(|e| self.num(q, e));
                if let (Some(x), Some(y)) = (lo, hi) {
                    if x > y {
                        self.complain("empty range".into());
                    }
                }
                if hi == Some(0) {
                    self.complain("zero times".into());
                }
                return Some((end, lo, hi));
            }
            return None;
        }
        let end = self.lit(self.skip(a?), "}")?;
        let n: Option<usize> = self.num(p, a?);
        if n == Some(0) {
            self.complain("zero times".into());
        }
        Some((end, n, n))
    }
    fn choice_op(&self, p: usize) -> Option<usize> {
        let q = if matches!(self.at(p), b'~' | b'^') { p + 1 } else { p };
        self.lit(self.skip(q), "|")
    }
    fn node(&mut self, p: usize) -> Option<(usize, Expr)> {
        if let Some(q) = self.lit(p, "(") {
            if let Some((q, e)) = self.expression(self.skip(q)) {
                if let Some(q) = self.lit(self.skip(q), ")") {
                    return Some((q, e));
                }
            }
            return None;
        }
        if let Some(q) = self.string(p) {
            let v = self.value(&self.s[p + 1..q - 1]);
            return Some((q, Expr::Str(v)));
        }
        if let Some((q, v)) = self.raw(p) {
            return Some((q, Expr::Str(v)));
        }
        if self.at(p) == b'i' {
            if let Some(q) = self.string(p + 1) {
                let v = self.value(&self.s[p + 2..q - 1]);
                return Some((q, Expr::Insens(v)));
            }
        }
        if let Some((q, v, a)) = self.path(p) {
            return Some((q, Expr::Path(v, a)));
        }
        let a = self.character(p)?;
        let c = self.skip(self.lit(self.skip(a), "..")?);
        let d = self.character(c)?;
        let x = self.value(&self.s[p + 1..a - 1]);
        let y = self.value(&self.s[c + 1..d - 1]);
        Some((d, Expr::Range(x.chars().next().unwrap_or('\0'), y.chars().next().unwrap_or('\0'))))
    }
    fn term(&mut self, p: usize) -> Option<(usize, Term)> {
        let mut p = p;
        let mut pre = vec![];
        while matches!(self.at(p), b'&' | b'!') {
            pre.push(self.b[p]);
            p = self.skip(p + 1);
        }
        let (mut p, mut e) = self.node(p)?;
        loop {
            p = self.skip(p);
            let mut q = p;
            let mut sep = None;
            if matches!(self.at(q), b'~' | b'^') {
                sep = Some(if self.b[q] == b'~' { Tr::Opt } else { Tr::Man });
                q = self.skip(q + 1);
            }
            let wrap = |e: Expr| match sep {
                Some(t) => Expr::Sep(Box::new(e), t),
                None => e,
            };
            match self.at(q) {
                b'?' => {
                    e = Expr::Opt(Box::new(wrap(e)));
                    p = q + 1;
                }
                b'*' => {
                    e = Expr::Rep(Box::new(wrap(e)));
                    p = q + 1;
                }
                b'+' => {
                    e = Expr::Plus(Box::new(wrap(e)));
                    p = q + 1;
                }
                b'{' => {
                    let saved = self.bad.clone();
                    match self.bounded(q) {
                        Some((q, lo, hi)) => {
                            e = Expr::RepRange(Box::new(wrap(e)), lo, hi);
                            p = q;
                        }
                        None => {
                            self.bad = saved;
                            break;
                        }
                    }
                }
                _ => break,
            }
        }
        for c in pre.iter().rev() {
            e = if *c == b'&' { Expr::Pos(Box::new(e)) } else { Expr::Neg(Box::new(e)) };
        }
        Some((p, Term::Expr(e)))
    }
    fn expression(&mut self, p: usize) -> Option<(usize, Expr)> {
        let mut terms: Vec<Expr> = vec![];
        let mut ops: Vec<Infix> = vec![];
        let lead = self.choice_op(p);
        let start = lead.map_or(p, |q| self.skip(q));
        let (mut p, Term::Expr(t)) = self.term(start)?;
        terms.push(t);
        match self.choice_op(self.skip(p)) {
            Some(q) => {
                let (q, Term::Expr(t)) = self.term(self.skip(q))?;
                ops.push(Infix::Choice);
                terms.push(t);
                p = q;
            }
            // A leading choice operator needs another one after the first term.
            None if lead.is_some() => return None,
            None => {}
        }
        loop {
            let q = self.skip(p);
            let op = match self.at(q) {
                b'-' => Some((q + 1, Infix::Seq(Tr::No))),
                b'~' => Some((q + 1, Infix::Seq(Tr::Opt))),
                b'^' => Some((q + 1, Infix::Seq(Tr::Man))),
                _ => self.choice_op(q).map(|q| (q, Infix::Choice)),
            };
            let Some((q, op)) = op else { break };
            let saved = self.bad.clone();
            match self.term(self.skip(q)) {
                Some((q, Term::Expr(t))) => {
                    ops.push(op);
                    terms.push(t);
                    p = q;
                }
                None => {
                    self.bad = saved;
                    break;
                }
            }
        }
        // Right-nested; sequence operators bind tighter than choices.
        let mut alts: Vec<Expr> = vec![];
        let mut seq: Vec<(Expr, Tr)> = vec![];
        let close = |seq: &mut Vec<(Expr, Tr)>| {
            let mut e = seq.pop().unwrap().0;
            while let Some((l, t)) = seq.pop() {
                e = Expr::Seq(Box::new(l), Box::new(e), t);
            }
            e
        };
        for (i, t) in terms.into_iter().enumerate() {
            match ops.get(i) {
                Some(Infix::Seq(tr)) => seq.push((t, *tr)),
                _ => {
                    seq.push((t, Tr::No));
                    alts.push(close(&mut seq));
                }
            }
        }
        let mut e = alts.pop().unwrap();
        while let Some(l) = alts.pop() {
            e = Expr::Choice(Box::new(l), Box::new(e));
        }
        Some((p, e))
    }
    fn arguments(&self, p: usize) -> Option<(usize, Vec<String>)> {
        let p = self.skip(self.lit(p, "(")?);
        let mut v = vec![];
        let mut q = p;
        if let Some((e, id)) = self.ident(p) {
            v.push(id);
            q = e;
            while let Some(c) = self.lit(self.skip(q), ",") {
                match self.ident(self.skip(c)) {
                    Some((e, id)) => {
                        v.push(id);
                        q = e;
                    }
                    None => break,
                }
            }
            let c = self.skip(q);
            q = self.lit(c, ",").unwrap_or(c);
        }
        Some((self.lit(self.skip(q), ")")?, v))
    }
    fn import(&mut self, p: usize) -> Option<(usize, ImportG)> {
        let p = self.skip(self.lit(p, "use ")?);
        let (p, path, args) = self.path(p)?;
        let mut out = ImportG { path, args: args.is_some(), file: None, alias: None };
        let mut p = self.skip(p);
        if let Some(q) = self.lit(p, "in") {
            let q = self.skip(q);
            if let Some(e) = self.string(q) {
                let v = self.value(&self.s[q + 1..e - 1]);
                out.file = Some(v);
                p = self.skip(e);
            }
        }
        if let Some(q) = self.lit(p, "as") {
            if let Some((e, id)) = self.ident(self.skip(q)) {
                out.alias = Some(id);
                p = e;
            }
        }
        Some((p, out))
    }
    fn rule(&mut self, p: usize) -> Option<(usize, RuleG)> {
        let mut p = p;
        let mut doc = vec![];
        while let Some(q) = self.lit(p, "///") {
            let e = self.line(q);
            doc.push(self.s[q..e].trim().to_string());
            p = self.skip(e);
        }
        let (q, name) = match self.at(p) {
            b'~' => (p + 1, "~".to_string()),
            b'^' => (p + 1, "^".to_string()),
            _ => self.ident(p)?,
        };
        let mut p = self.skip(q);
        let mut args = vec![];
        if let Some((q, a)) = self.arguments(p) {
            p = self.skip(q);
            args = a;
        }
        p = self.skip(self.lit(p, "=")?);
        let mut silent = false;
        if self.at(p) == b'_' && self.ident(p + 1).is_none() {
            silent = true;
            p = self.skip(p + 1);
        }
        let saved = self.bad.clone();
        if let Some(q) = self.lit(p, "{") {
            if let Some((q, e)) = self.expression(self.skip(q)) {
                if let Some(q) = self.lit(self.skip(q), "}") {
                    return Some((q, RuleG { doc, name, args, silent, expr: e }));
                }
            }
            self.bad = saved;
        }
        let (q, e) = self.expression(p)?;
        Some((q, RuleG { doc, name, args, silent, expr: e }))
    }
    fn file(&mut self) -> Option<FileG> {
        let mut f = FileG::default();
        let mut p = self.skip(0);
        while let Some(q) = self.lit(p, "//!") {
            let e = self.line(q);
            f.docs.push(self.s[q..e].trim().to_string());
            p = self.skip(e);
        }
        let mut rules = 0;
        loop {
            let saved = self.bad.clone();
            if let Some((q, i)) = self.import(p) {
                f.items.push(Item::Import(i));
                p = self.skip(q);
                continue;
            }
            self.bad = saved.clone();
            match self.rule(p) {
                Some((q, r)) => {
                    f.items.push(Item::Rule(r));
                    rules += 1;
                    p = self.skip(q);
                }
                None => {
                    self.bad = saved;
                    break;
                }
            }
        }
        (rules > 0 && p == self.b.len()).then_some(f)
    }
}

/// What a grammar text says, or why it says nothing.
pub fn parse_text(s: &str) -> Result<FileG, String> {
    let mut p = P { s, b: s.as_bytes(), bad: None };
    match p.file() {
        None => Err("syntax error".into()),
        Some(f) => match p.bad {
            Some(b) => Err(b),
            None => {
                if f.items.iter().any(|i| matches!(i, Item::Import(i) if i.args)) {
                    return Err("arguments in an import".into());
                }
                Ok(f)
            }
        },
    }
}

/// Text of one expression.
pub fn parse_expr(s: &str) -> Option<Expr> {
    let mut p = P { s, b: s.as_bytes(), bad: None };
    let (q, e) = p.expression(0)?;
    (p.skip(q) == s.len() && p.bad.is_none()).then_some(e)
}
/// Text of one rule.
pub fn parse_rule(s: &str) -> Option<RuleG> {
    let mut p = P { s, b: s.as_bytes(), bad: None };
    let (q, r) = p.rule(0)?;
    (p.skip(q) == s.len() && p.bad.is_none()).then_some(r)
}

// ---------------------------------------------------------------------------------------------
// Reference loader

#[derive(Clone, Debug)]
pub enum Link {
    Builtin(Vec<String>),
    /// Normalised path of the file.
    File(String),
}

#[derive(Clone, Debug)]
pub struct ModG {
    /// The text of the file.
    pub text: Rc<str>,
    pub docs: Vec<String>,
    pub rules: Vec<RuleG>,
    pub imports: Vec<(String, Link)>,
}

#[derive(Clone, Debug)]
pub struct Loaded {
    pub root: Rc<ModG>,
    /// Every imported file.
    pub files: BTreeMap<String, Rc<ModG>>,
}
impl Loaded {
    /// Files reachable from the imports of a module.
    pub fn reach(&self, m: &ModG) -> BTreeSet<String> {
        let mut out = BTreeSet::new();
        let mut todo: Vec<&ModG> = vec![m];
        while let Some(m) = todo.pop() {
            for (_, l) in &m.imports {
                if let Link::File(f) = l {
                    if out.insert(f.clone()) {
                        todo.push(&self.files[f]);
                    }
                }
            }
        }
        out
    }
}

/// The file an import written in `here` (normalised path of the importing file) refers to.
pub fn target(here: &str, i: &ImportG) -> String {
    if let Some(f) = &i.file {
        return crate::vfs::normal(f);
    }
    let dir = &here[..here.rfind('/').unwrap_or(0)];
    let mut parts: Vec<String> = dir.split('/').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
    let n = i.path.len();
    for (k, s) in i.path.iter().enumerate() {
        if s == "super" {
            parts.pop();
        } else if k + 1 == n {
            parts.push(format!("{s}.pest"));
        } else {
            parts.push(s.clone());
        }
    }
    format!("/{}", parts.join("/"))
}

/// Loads the project rooted at a text. `read` gives the content of a path, which is normalised
/// unless it is spelled out in an import.
/// Errors name what is wrong.
pub fn load(text: &str, root: &str, read: &mut dyn FnMut(&str) -> Result<String, String>) -> Result<Loaded, String> {
    fn go(
        text: &str,
        here: &str,
        files: &mut BTreeMap<String, Rc<ModG>>,
        open: &mut Vec<String>,
        read: &mut dyn FnMut(&str) -> Result<String, String>,
    ) -> Result<Rc<ModG>, String> {
        let f = parse_text(text).map_err(|e| format!("{here}: {e}"))?;
        let mut m = ModG { text: text.into(), docs: f.docs, rules: vec![], imports: vec![] };
        for it in f.items {
            match it {
                Item::Rule(r) => m.rules.push(r),
                Item::Import(i) => {
                    let alias = i.alias.clone().unwrap_or_else(|| i.path.last().unwrap().clone());
                    if i.path[0] == "pest" {
                        m.imports.push((alias, Link::Builtin(i.path)));
                        continue;
                    }
                    let t = target(here, &i);
                    if open.contains(&t) {
                        return Err(format!("{here}: import cycle through {t}"));
                    }
                    if let Some(f) = i.file.as_ref().filter(|_| files.contains_key(&t)) {
                        // Directories on the way must exist under this spelling too.
                        read(f).map_err(|e| format!("{here}: {f}: {e}"))?;
                    }
                    if !files.contains_key(&t) {
                        let text = read(i.file.as_ref().unwrap_or(&t)).map_err(|e| format!("{here}: {t}: {e}"))?;
                        open.push(t.clone());
                        let sub = go(&text, &t, files, open, read)?;
                        open.pop();
                        files.insert(t.clone(), sub);
                    }
                    m.imports.push((alias, Link::File(t)));
                }
            }
        }
        Ok(Rc::new(m))
    }
    let mut files = BTreeMap::new();
    // A chain back to the root is noticed when it comes round a second time.
    let mut open = vec![];
    let root = go(text, root, &mut files, &mut open, read)?;
    Ok(Loaded { root, files })
}

// ---------------------------------------------------------------------------------------------
// Comparison with what the real loader returned

pub mod real {
    use super::*;
    use pest3_meta::parser as m;
    use std::sync::Arc;

    pub fn expr(e: &m::ParseExpr) -> Expr {
        let b = |n: &m::ParseNode| Box::new(expr(&n.expr));
        match e {
            m::ParseExpr::Str(s) => Expr::Str(s.clone()),
            m::ParseExpr::Insens(s) => Expr::Insens(s.clone()),
            m::ParseExpr::Range(a, b) => Expr::Range(*a, *b),
            m::ParseExpr::Path(p, a) => Expr::Path(
                p.clone(),
                a.as_ref().map(|a| match a {
                    m::PathArgs::Call(v) => Args::Call(v.iter().map(|n| expr(&n.expr)).collect()),
                    m::PathArgs::Slice(r) => Args::Slice(r.start, r.end),
                }),
            ),
            m::ParseExpr::PosPred(n) => Expr::Pos(b(n)),
            m::ParseExpr::NegPred(n) => Expr::Neg(b(n)),
            m::ParseExpr::Seq(l, r, t) => Expr::Seq(b(l), b(r), tr(t)),
            m::ParseExpr::Choice(l, r) => Expr::Choice(b(l), b(r)),
            m::ParseExpr::Opt(n) => Expr::Opt(b(n)),
            m::ParseExpr::Rep(n) => Expr::Rep(b(n)),
            m::ParseExpr::RepOnce(n) => Expr::Plus(b(n)),
            m::ParseExpr::RepRange(n, r) => Expr::RepRange(b(n), r.start, r.end),
            m::ParseExpr::Separated(n, t) => Expr::Sep(b(n), tr(t)),
        }
    }
    fn tr(t: &m::Trivia) -> Tr {
        match t {
            m::Trivia::None => Tr::No,
            m::Trivia::Optional => Tr::Opt,
            m::Trivia::Mandatory => Tr::Man,
        }
    }
    pub fn rule(r: &m::ParseRule) -> RuleG {
        RuleG { doc: r.doc.clone(), name: r.name.clone(), args: r.args.clone(), silent: r.silent, expr: expr(&r.node.expr) }
    }
    /// First difference between a loaded module and the reference.
    pub fn differs(g: &m::GrammarModule, l: &Loaded) -> Option<String> {
        // (module, place) pairs already found equal; modules are kept alive by `g`.
        let mut done: BTreeSet<(usize, String)> = BTreeSet::new();
        walk(g, &l.root, l, "root", None, &mut done)
    }
    /// The place recorded for a node holds the text of the node, inside that of its parent.
    fn place(n: &m::ParseNode, text: &str, outer: &m::Span, r: &m::ParseRule) -> Option<String> {
        let s = &n.span;
        let Some(t) = text.get(s.start..s.end) else {
            return Some(format!("{}..{} is not a place in the file", s.start, s.end));
        };
        if s.start < outer.start || s.end > outer.end || s.path != r.span.path {
            return Some(format!("{:?} {}..{} is not inside {:?} {}..{}", s.path, s.start, s.end, r.span.path, outer.start, outer.end));
        }
        let inner = |c: &m::ParseNode| place(c, text, s, r);
        let prefix = |c: &m::ParseNode, o: char| if t.starts_with(o) { inner(c) } else { Some(format!("{t:?} does not start with {o}")) };
        let postfix = |c: &m::ParseNode, o: char| if t.trim_end().ends_with(o) { inner(c) } else { Some(format!("{t:?} does not end with {o}")) };
        match &n.expr {
            m::ParseExpr::Str(_) | m::ParseExpr::Insens(_) | m::ParseExpr::Range(..) | m::ParseExpr::Path(..) => {
                let have = expr(&n.expr);
                if parse_expr(t).as_ref() != Some(&have) {
                    return Some(format!("{t:?} is not {have:?}"));
                }
                match &n.expr {
                    m::ParseExpr::Path(_, Some(m::PathArgs::Call(v))) => v.iter().find_map(inner),
                    _ => None,
                }
            }
            m::ParseExpr::PosPred(c) => prefix(c, '&'),
            m::ParseExpr::NegPred(c) => prefix(c, '!'),
            m::ParseExpr::Opt(c) => postfix(c, '?'),
            m::ParseExpr::Rep(c) => postfix(c, '*'),
            m::ParseExpr::RepOnce(c) => postfix(c, '+'),
            m::ParseExpr::RepRange(c, _) => postfix(c, '}'),
            m::ParseExpr::Separated(c, t) => postfix(c, if tr(t) == Tr::Opt { '~' } else { '^' }),
            m::ParseExpr::Seq(a, b, _) | m::ParseExpr::Choice(a, b) => {
                if a.span.end > b.span.start {
                    return Some(format!("operands of {t:?} overlap"));
                }
                inner(a).or_else(|| inner(b))
            }
        }
    }
    /// The places recorded for a rule and its nodes.
    fn places(r: &m::ParseRule, want: &ModG, here: Option<&str>) -> Option<String> {
        if let Some(f) = here {
            if crate::vfs::normal(&r.span.path.to_string_lossy()) != f {
                return Some(format!("rule {} is said to be in {:?}", r.name, r.span.path));
            }
        }
        let t = want.text.get(r.span.start..r.span.end);
        if t.and_then(parse_rule).is_none_or(|x| x != rule(r)) {
            return Some(format!("the place of rule {} holds {t:?}", r.name));
        }
        place(&r.node, &want.text, &r.span, r).map(|x| format!("in rule {}: {x}", r.name))
    }
    fn walk(g: &m::GrammarModule, want: &ModG, l: &Loaded, at: &str, file: Option<&str>, done: &mut BTreeSet<(usize, String)>) -> Option<String> {
        if g.doc.grammar_doc != want.docs {
            return Some(format!("{at}: documentation {:?} instead of {:?}", g.doc.grammar_doc, want.docs));
        }
        if g.rules.len() != want.rules.len() {
            let a: Vec<&str> = g.rules.iter().map(|r| r.name.as_str()).collect();
            let b: Vec<&str> = want.rules.iter().map(|r| r.name.as_str()).collect();
            return Some(format!("{at}: rules {a:?} instead of {b:?}"));
        }
        for (r, b) in g.rules.iter().zip(&want.rules) {
            let a = rule(r);
            if a != *b {
                return Some(format!("{at}: rule {a:?} instead of {b:?}"));
            }
            if let Some(d) = places(r, want, file) {
                return Some(format!("{at}: wrong place: {d}"));
            }
        }
        if g.imports.len() != want.imports.len() {
            return Some(format!("{at}: {} imports instead of {}", g.imports.len(), want.imports.len()));
        }
        for (a, (name, link)) in g.imports.iter().zip(&want.imports) {
            match (a, link) {
                (m::Import::Builtin(n, p), Link::Builtin(q)) => {
                    if n != name || p != q {
                        return Some(format!("{at}: import {n} = {p:?} instead of {name} = {q:?}"));
                    }
                }
                (m::Import::File(n, sub), Link::File(f)) => {
                    if n != name {
                        return Some(format!("{at}: import name {n} instead of {name}"));
                    }
                    if done.insert((Arc::as_ptr(sub) as usize, f.clone())) {
                        if let Some(d) = walk(sub, &l.files[f], l, &format!("{at}::{n}"), Some(f), done) {
                            return Some(d);
                        }
                    }
                }
                _ => return Some(format!("{at}: import {name} is of the wrong kind")),
            }
        }
        None
    }
    /// Calls `f` with every imported module and the file the reference says it is (equal
    /// structure assumed), each pair once.
    pub fn each(g: &m::GrammarModule, l: &Loaded, f: &mut dyn FnMut(&m::GrammarModule, &ModG, &str)) {
        fn go(g: &m::GrammarModule, want: &ModG, l: &Loaded, f: &mut dyn FnMut(&m::GrammarModule, &ModG, &str), done: &mut BTreeSet<(usize, String)>) {
            for (a, (_, link)) in g.imports.iter().zip(&want.imports) {
                if let (m::Import::File(_, sub), Link::File(p)) = (a, link) {
                    if done.insert((Arc::as_ptr(sub) as usize, p.clone())) {
                        f(sub, &l.files[p], p);
                        go(sub, &l.files[p], l, f, done);
                    }
                }
            }
        }
        go(g, &l.root, l, f, &mut BTreeSet::new())
    }
}

// ---------------------------------------------------------------------------------------------
// Printer

pub struct Print<'a> {
    pub r: &'a mut Rng,
    pub out: String,
    /// Random layout, comments, redundant parentheses and alternative spellings.
    pub fancy: bool,
    /// A burst of redundant parentheses has been printed.
    burst: bool,
}

fn prec(e: &Expr) -> u8 {
    match e {
        Expr::Choice(..) => 0,
        Expr::Seq(..) => 1,
        Expr::Pos(_) | Expr::Neg(_) => 2,
        Expr::Opt(_) | Expr::Rep(_) | Expr::Plus(_) | Expr::RepRange(..) => 3,
        _ => 4,
    }
}

impl<'a> Print<'a> {
    pub fn new(r: &'a mut Rng, fancy: bool) -> Self {
        Print { r, out: String::new(), fancy, burst: false }
    }
    fn gap(&mut self) {
        if !self.fancy {
            return;
        }
        match self.r.below(24) {
            0..=9 => {}
            10..=15 => self.out.push(' '),
            16 => self.out.push('\t'),
            17 => self.out.push('\n'),
            18 => self.out.push_str("\r\n"),
            19 => self.out.push_str("  \n\t"),
            20 => self.out.push_str("/* c */"),
            21 => self.out.push_str("/* a /* \"é */ | */"),
            22 => self.out.push_str(" // x = \"y\"\n"),
            _ => self.out.push_str("//\r\n"),
        }
    }
    fn sp(&mut self) {
        let n = self.out.len();
        self.gap();
        if self.out.len() == n && !self.fancy {
            self.out.push(' ');
        }
    }
    fn chars(&mut self, s: &str) {
        for c in s.chars() {
            let odd = self.fancy && self.r.chance(1, 8);
            match c {
                '"' => self.out.push_str("\\\""),
                '\\' => self.out.push_str("\\\\"),
                '\n' if !odd => self.out.push_str("\\n"),
                '\r' => self.out.push_str("\\r"),
                '\t' if !odd => self.out.push_str("\\t"),
                '\0' => self.out.push_str("\\0"),
                '\'' if odd => self.out.push_str("\\'"),
                c if odd && c.is_ascii() => self.out.push_str(&format!("\\x{:02x}", c as u32)),
                c if odd => self.out.push_str(&format!("\\u{{{:X}}}", c as u32)),
                c => self.out.push(c),
            }
        }
    }
    fn string(&mut self, s: &str) {
        self.out.push('"');
        self.chars(s);
        self.out.push('"');
    }
    fn chr(&mut self, c: char) {
        self.out.push('\'');
        match c {
            '\'' => self.out.push_str("\\'"),
            '"' if self.fancy && self.r.chance(1, 2) => self.out.push('"'),
            c => self.chars(&c.to_string()),
        }
        self.out.push('\'');
    }
    pub fn expr(&mut self, e: &Expr, min: u8) {
        let mut extra = (self.fancy && self.r.chance(1, 20)) as usize;
        if extra > 0 && !self.burst && self.r.chance(1, 30) {
            self.burst = true;
            extra = 1 << self.r.range(2, 6);
        }
        if prec(e) < min || extra > 0 {
            for _ in 1..extra {
                self.out.push('(');
            }
            self.out.push('(');
            self.gap();
            self.expr(e, 0);
            self.gap();
            self.out.push(')');
            for _ in 1..extra {
                self.out.push(')');
            }
            return;
        }
        match e {
            Expr::Str(s) => {
                // A raw string cannot hold its own terminator.
                if self.fancy && self.r.chance(1, 6) {
                    let n = self.r.below(3);
                    let p = "#".repeat(n);
                    if !s.contains(&format!("\"{p}")) {
                        self.out.push_str(&format!("r{p}\"{s}\"{p}"));
                        return;
                    }
                }
                self.string(s)
            }
            Expr::Insens(s) => {
                self.out.push('i');
                self.string(s);
            }
            Expr::Range(a, b) => {
                self.chr(*a);
                self.gap();
                self.out.push_str("..");
                self.gap();
                self.chr(*b);
            }
            Expr::Path(p, a) => {
                for (i, s) in p.iter().enumerate() {
                    if i > 0 {
                        self.gap();
                        self.out.push_str("::");
                        self.gap();
                    }
                    self.out.push_str(s);
                }
                match a {
                    None => {}
                    Some(Args::Call(v)) => {
                        self.gap();
                        self.out.push('(');
                        for (i, x) in v.iter().enumerate() {
                            if i > 0 {
                                self.out.push(',');
                                self.sp();
                            }
                            self.gap();
                            self.expr(x, 0);
                            self.gap();
                        }
                        if self.fancy && !v.is_empty() && self.r.chance(1, 6) {
                            self.out.push(',');
                            self.gap();
                        }
                        self.out.push(')');
                    }
                    Some(Args::Slice(a, b)) => {
                        self.gap();
                        self.out.push('[');
                        if let Some(a) = a {
                            self.gap();
                            self.int(*a);
                        }
                        self.gap();
                        self.out.push_str("..");
                        if let Some(b) = b {
                            self.gap();
                            self.int(*b);
                        }
                        self.gap();
                        self.out.push(']');
                    }
                }
            }
            Expr::Pos(x) | Expr::Neg(x) => {
                self.out.push(if matches!(e, Expr::Pos(_)) { '&' } else { '!' });
                self.gap();
                self.expr(x, 2);
            }
            Expr::Seq(l, r, t) => {
                self.expr(l, 2);
                self.sp();
                self.out.push(match t {
                    Tr::No => '-',
                    Tr::Opt => '~',
                    Tr::Man => '^',
                });
                self.sp();
                self.expr(r, 1);
            }
            Expr::Choice(l, r) => {
                self.expr(l, 1);
                self.sp();
                self.out.push('|');
                self.sp();
                self.expr(r, 0);
            }
            Expr::Opt(x) | Expr::Rep(x) | Expr::Plus(x) | Expr::RepRange(x, ..) => {
                let (x, sep) = match &**x {
                    Expr::Sep(y, t) => (&**y, Some(*t)),
                    y => (y, None),
                };
                self.expr(x, 3);
                self.gap();
                if let Some(t) = sep {
                    self.out.push(if t == Tr::Opt { '~' } else { '^' });
                    self.gap();
                }
                match e {
                    Expr::Opt(_) => self.out.push('?'),
                    Expr::Rep(_) => self.out.push('*'),
                    Expr::Plus(_) => self.out.push('+'),
                    Expr::RepRange(_, a, b) => {
                        self.out.push('{');
                        self.gap();
                        if a.is_some() && a == b && !(self.fancy && self.r.chance(1, 3)) {
                            self.out.push_str(&a.unwrap().to_string());
                        } else {
                            if let Some(a) = a {
                                self.out.push_str(&a.to_string());
                                self.gap();
                            }
                            self.out.push_str("..");
                            if let Some(b) = b {
                                self.gap();
                                self.out.push_str(&b.to_string());
                            }
                        }
                        self.gap();
                        self.out.push('}');
                    }
                    _ => unreachable!(),
                }
            }
            Expr::Sep(..) => unreachable!("separator without a repetition"),
        }
    }
    fn int(&mut self, x: isize) {
        if x >= 0 && self.fancy && self.r.chance(1, 5) {
            self.out.push('+');
        }
        self.out.push_str(&x.to_string());
    }
    pub fn rule(&mut self, x: &RuleG) {
        for d in &x.doc {
            self.out.push_str("///");
            if !self.fancy || self.r.chance(3, 4) {
                self.out.push(' ');
            }
            self.out.push_str(d);
            self.out.push_str(if self.fancy && self.r.chance(1, 4) { " \r\n" } else { "\n" });
            self.gap();
        }
        self.out.push_str(&x.name);
        if !x.args.is_empty() {
            self.gap();
            self.out.push('(');
            for (i, a) in x.args.iter().enumerate() {
                if i > 0 {
                    self.out.push(',');
                    self.sp();
                }
                self.gap();
                self.out.push_str(a);
                self.gap();
            }
            if self.fancy && self.r.chance(1, 6) {
                self.out.push(',');
            }
            self.out.push(')');
        }
        self.sp();
        self.out.push('=');
        self.sp();
        let braces = if x.silent || !self.fancy { x.silent } else { self.r.chance(1, 4) };
        if x.silent {
            self.out.push('_');
            if self.fancy && self.r.chance(1, 3) {
                self.out.push(' ');
            }
        }
        if braces {
            self.out.push('{');
            self.sp();
        }
        if self.fancy && matches!(x.expr, Expr::Choice(..)) && self.r.chance(1, 4) {
            self.lead(&x.expr);
        } else {
            self.expr(&x.expr, 0);
        }
        if braces {
            self.sp();
            self.out.push('}');
        }
        self.out.push('\n');
        self.gap();
    }
    /// A leading choice operator is allowed only when the first alternative is a single term.
    fn lead(&mut self, e: &Expr) {
        if let Expr::Choice(l, r) = e {
            if prec(l) >= 2 {
                self.out.push('|');
                self.gap();
                self.expr(l, 2);
                self.sp();
                self.out.push('|');
                self.sp();
                self.expr(r, 0);
                return;
            }
        }
        self.expr(e, 0);
    }
    pub fn file(&mut self, f: &FileG) {
        for d in &f.docs {
            self.out.push_str("//! ");
            self.out.push_str(d);
            self.out.push('\n');
        }
        for (n, it) in f.items.iter().enumerate() {
            match it {
                Item::Rule(r) => self.rule(r),
                Item::Import(i) => {
                    self.out.push_str("use ");
                    self.out.push_str(&i.path.join("::"));
                    if let Some(x) = &i.file {
                        self.out.push_str(" in ");
                        self.string(x);
                    }
                    if let Some(a) = &i.alias {
                        self.out.push_str(" as ");
                        self.out.push_str(a);
                    } else if let Some(Item::Rule(_)) = f.items.get(n + 1) {
                        // `in`/`as` are not separated from what follows; layout keeps them apart
                        // only because no generated rule name starts with them.
                    }
                    self.out.push('\n');
                    self.gap();
                }
            }
        }
    }
}

/// Prints a file.
pub fn print(f: &FileG, r: &mut Rng, fancy: bool) -> String {
    let mut p = Print::new(r, fancy);
    p.file(f);
    p.out
}

// ---------------------------------------------------------------------------------------------
// Generator of projects

#[derive(Clone, Debug)]
pub struct Proj {
    /// Normalised path of the root grammar.
    pub root: String,
    pub files: BTreeMap<String, FileG>,
}

pub const LITS: [&str; 22] = [
    "a", "b", "ab", "x", "0", "é", "日本", "", "\n", "\r\n", "\"", "\\", "\t", "{", "//", "a b", "'", "B", "🦀", "\u{7f}", "#", "\\n",
];
const CHARS: [(char, char); 9] = [('a', 'z'), ('0', '9'), ('a', 'a'), ('é', '日'), ('\u{0}', '\u{10ffff}'), ('"', '~'), ('\'', '\''), ('\\', ']'), ('z', 'a')];
pub const BUILTINS: [&str; 11] =
    ["any", "soi", "eoi", "newline", "ascii_digit", "ascii_alpha", "ascii", "ascii_hex_digit", "ascii_alphanumeric", "ascii_alpha_lower", "ascii_bin_digit"];
pub const STACKS: [&str; 5] = ["peek", "peek_all", "pop", "pop_all", "drop"];

#[derive(Clone, Debug)]
pub struct Opts {
    pub max_files: usize,
    pub max_rules: usize,
    pub cycles: bool,
    /// Only grammars the code generator accepts (every reference defined, no left recursion, ...).
    pub valid: bool,
    pub inline_paths: bool,
}

/// What can be referred to from a module: path and number of arguments.
type Scope = Vec<(Vec<String>, usize)>;

struct Gen<'a> {
    r: &'a mut Rng,
    scope: Scope,
    args: Vec<String>,
    trivia: [bool; 2],
    depth: usize,
}

impl Gen<'_> {
    fn path(&self, p: &[String]) -> Vec<String> {
        p.to_vec()
    }
    fn leaf(&mut self) -> Expr {
        match self.r.weighted(&[8, 3, 4, 10, 4, 3, 2, if self.args.is_empty() { 0 } else { 12 }]) {
            0 => Expr::Str(self.r.pick(&LITS).to_string()),
            1 => Expr::Insens(self.r.pick(&LITS).to_string()),
            2 => {
                let (a, b) = *self.r.pick(&CHARS);
                Expr::Range(a, b)
            }
            3 => {
                let plain: Vec<usize> = (0..self.scope.len()).filter(|i| self.scope[*i].1 == 0).collect();
                if plain.is_empty() {
                    return Expr::Str("x".into());
                }
                let i = *self.r.pick(&plain);
                Expr::Path(self.path(&self.scope[i].0.clone()), None)
            }
            4 => Expr::Path(vec!["pest".into(), self.r.pick(&BUILTINS).to_string()], None),
            5 => Expr::Path(vec!["pest".into(), "stack".into(), self.r.pick(&STACKS).to_string()], None),
            6 => {
                let a = if self.r.chance(2, 3) { Some(self.r.range(0, 6) as isize - 3) } else { None };
                let b = if self.r.chance(1, 2) { Some(self.r.range(0, 6) as isize - 3) } else { None };
                Expr::Path(vec!["pest".into(), "stack".into(), "peek".into()], Some(Args::Slice(a, b)))
            }
            _ => Expr::Path(vec![self.r.pick(&self.args).clone()], None),
        }
    }
    fn tr(&mut self) -> Tr {
        match self.r.below(4) {
            0 if self.trivia[1] => Tr::Man,
            1 | 2 if self.trivia[0] => Tr::Opt,
            _ => Tr::No,
        }
    }
    fn expr(&mut self, d: usize) -> Expr {
        if d == 0 {
            return self.leaf();
        }
        match self.r.weighted(&[6, 7, 6, 2, 2, 3, 3, 2, 4, 3]) {
            0 => self.leaf(),
            1 => {
                let t = self.tr();
                Expr::Seq(Box::new(self.expr(d - 1)), Box::new(self.expr(d - 1)), t)
            }
            2 => Expr::Choice(Box::new(self.expr(d - 1)), Box::new(self.expr(d - 1))),
            3 => Expr::Pos(Box::new(self.expr(d - 1))),
            4 => Expr::Neg(Box::new(self.expr(d - 1))),
            5 => Expr::Opt(Box::new(self.expr(d - 1))),
            6 => {
                let b = self.body(d);
                Expr::Rep(b)
            }
            7 => {
                let b = self.body(d);
                Expr::Plus(b)
            }
            8 => {
                let b = self.body(d);
                let (lo, hi) = *self.r.pick(&[
                    (Some(1), Some(1)),
                    (Some(2), Some(2)),
                    (Some(0), Some(2)),
                    (Some(1), Some(3)),
                    (Some(2), None),
                    (None, Some(2)),
                    (None, None),
                    (Some(0), None),
                    (None, Some(1)),
                ]);
                Expr::RepRange(b, lo, hi)
            }
            _ => {
                let calls: Vec<usize> = (0..self.scope.len()).filter(|i| self.scope[*i].1 > 0).collect();
                if self.depth > 0 || calls.is_empty() || self.r.chance(1, 3) {
                    if self.depth > 1 {
                        return self.leaf();
                    }
                    self.depth += 1;
                    let e = self.expr(d.min(2) - 1);
                    self.depth -= 1;
                    return Expr::Path(vec!["pest".into(), "stack".into(), "push".into()], Some(Args::Call(vec![e])));
                }
                let i = *self.r.pick(&calls);
                let (p, n) = self.scope[i].clone();
                self.depth += 1;
                let args = (0..n).map(|_| self.expr(d.min(2) - 1)).collect();
                self.depth -= 1;
                Expr::Path(self.path(&p), Some(Args::Call(args)))
            }
        }
    }
    /// Body of a repetition, with or without separator trivia.
    fn body(&mut self, d: usize) -> Box<Expr> {
        let e = Box::new(self.expr(d - 1));
        match self.tr() {
            Tr::No => e,
            t => Box::new(Expr::Sep(e, t)),
        }
    }
}

const DOCS: [&str; 5] = ["One.", "a = b", "é \"q\" // not a comment", "", "two  words"];
const PLACES: [&str; 13] = [
    "/vfs/cwd/g/m1.pest",
    "/vfs/cwd/g/m2.pest",
    "/vfs/cwd/g/sub/m3.pest",
    "/vfs/cwd/g/sub/m4.pest",
    "/vfs/cwd/g/sub/deep/m5.pest",
    "/vfs/cwd/m6.pest",
    "/vfs/cwd/g/root_b.pest",
    "/vfs/lib/m7.pest",
    "/vfs/cwd/g/sub/root.pest",
    // Same names elsewhere, and names that mean something to the loader.
    "/vfs/cwd/g/sub/m1.pest",
    "/vfs/cwd/g/pest/m8.pest",
    "/vfs/lib.v1/m9.pest",
    "/vfs/cwd/g/src/m2.pest",
];

/// How `here` can name `there` in a `use` (module path), if it can.
pub fn spelled(here: &str, there: &str, r: &mut Rng) -> Vec<String> {
    let hd: Vec<&str> = here[1..].split('/').collect();
    let td: Vec<&str> = there[1..].split('/').collect();
    let hd = &hd[..hd.len() - 1];
    let mut common = 0;
    while common < hd.len() && common + 1 < td.len() && hd[common] == td[common] {
        common += 1;
    }
    // Sometimes take a detour through a parent.
    if common > 2 && r.chance(1, 5) {
        common -= 1;
    }
    if td.get(common) == Some(&"pest") && common == hd.len() {
        // Would be a built-in module.
        common -= 1;
    }
    let mut v: Vec<String> = (common..hd.len()).map(|_| "super".to_string()).collect();
    v.extend(td[common..].iter().map(|s| s.trim_end_matches(".pest").to_string()));
    v
}

pub fn gen_proj(r: &mut Rng, o: &Opts) -> Proj {
    let root = "/vfs/cwd/g/root.pest".to_string();
    let n = 1 + r.below(o.max_files);
    let mut places: Vec<String> = vec![root.clone()];
    let mut pool: Vec<&str> = PLACES.to_vec();
    while places.len() < n {
        let i = r.below(pool.len());
        places.push(pool.remove(i).to_string());
    }
    // Build from the last to the first, so that imports go forward (a DAG).
    let mut exports: Vec<Scope> = vec![vec![]; n];
    let mut files: Vec<FileG> = vec![FileG::default(); n];
    for i in (0..n).rev() {
        let mut imports: Vec<ImportG> = vec![];
        let mut scope: Scope = vec![];
        let mut used: BTreeSet<String> = BTreeSet::new();
        if i + 1 < n {
            let k = if i == 0 { 1 + r.below(3) } else { r.below(3) };
            for _ in 0..k {
                let t = r.range(i + 1, n - 1);
                let path = spelled(&places[i], &places[t], r);
                let mut imp = ImportG { path, args: false, file: None, alias: None };
                if o.inline_paths && (r.chance(1, 5) || imp.path.iter().any(|x| x.contains('.'))) {
                    imp.file = Some(if r.chance(1, 2) || !places[t].starts_with("/vfs/cwd/") {
                        places[t].clone()
                    } else {
                        let s = places[t]["/vfs/cwd/".len()..].to_string();
                        if r.chance(1, 3) { format!("./{s}") } else if r.chance(1, 4) { format!("g/../{s}") } else { s }
                    });
                    imp.path = vec![format!("f{t}")];
                }
                if r.chance(1, 3) {
                    imp.alias = Some(format!("n{}", r.below(4)));
                }
                let name = imp.alias.clone().unwrap_or_else(|| imp.path.last().unwrap().clone());
                if !used.insert(name.clone()) {
                    continue;
                }
                for (p, a) in &exports[t] {
                    let mut q = vec![name.clone()];
                    q.extend(p.iter().cloned());
                    scope.push((q, *a));
                }
                imports.push(imp);
            }
        }
        if !o.valid && r.chance(1, 6) {
            imports.push(ImportG { path: vec!["pest".into(), "unicode".into()], args: false, file: None, alias: Some("uni".into()) });
        }
        let trivia = [r.chance(1, 2), r.chance(1, 3)];
        let nr = 1 + r.below(o.max_rules);
        // Later rules may be used freely, earlier ones only behind something (kept simple: any
        // rule may refer to any other one in the loader checks; the code generator checks use
        // their own restriction).
        let names: Vec<(String, usize)> = (0..nr)
            .map(|k| (format!("{}{i}_{k}", ["r", "s", "_t", "X"][r.below(4)]), if r.chance(1, 4) { 1 + r.below(2) } else { 0 }))
            .collect();
        let mut own: Scope = names.iter().map(|(s, a)| (vec![s.clone()], *a)).collect();
        own.extend(scope.iter().cloned());
        let mut rules: Vec<RuleG> = vec![];
        for (name, a) in &names {
            let args: Vec<String> = (0..*a).map(|k| format!("p{k}")).collect();
            let depth = 1 + r.below(4);
            let mut g = Gen { r, scope: own.clone(), args: args.clone(), trivia, depth: 0 };
            let mut expr = g.expr(depth);
            // Every argument must be used.
            for p in &args {
                if !uses(&expr, p) {
                    expr = Expr::Seq(Box::new(Expr::Path(vec![p.clone()], None)), Box::new(expr), Tr::No);
                }
            }
            let silent = *a == 0 && r.chance(1, 5);
            let doc = (0..if r.chance(1, 5) { 1 + r.below(2) } else { 0 }).map(|_| r.pick(&DOCS).trim().to_string()).collect();
            rules.push(RuleG { doc, name: name.clone(), args, silent, expr });
        }
        for (k, s) in ["~", "^"].iter().enumerate() {
            if trivia[k] {
                let e = r.pick(&[Expr::Rep(Box::new(Expr::Str(" ".into()))), Expr::Plus(Box::new(Expr::Str(" ".into()))), Expr::Str("-".into())]).clone();
                let at = r.below(rules.len() + 1);
                rules.insert(at, RuleG { doc: vec![], name: s.to_string(), args: vec![], silent: false, expr: e });
            }
        }
        exports[i] = own;
        exports[i].truncate(60);
        let docs = (0..if r.chance(1, 4) { 1 + r.below(2) } else { 0 }).map(|_| r.pick(&DOCS).trim().to_string()).collect();
        let mut items: Vec<Item> = vec![];
        let late = imports.len() > 1 && r.chance(1, 4);
        let mut tail = vec![];
        for (k, imp) in imports.into_iter().enumerate() {
            if late && k > 0 {
                tail.push(Item::Import(imp));
            } else {
                items.push(Item::Import(imp));
            }
        }
        items.extend(rules.into_iter().map(Item::Rule));
        for t in tail {
            let first = items.iter().position(|x| matches!(x, Item::Rule(_))).unwrap();
            let at = r.range(first + 1, items.len());
            items.insert(at, t);
        }
        files[i] = FileG { docs, items };
    }
    if o.cycles {
        // A back edge: from some file to one that reaches it, or to itself.
        let from = r.below(n);
        let to = r.below(from + 1);
        let path = spelled(&places[from], &places[to], r);
        let imp = Item::Import(ImportG { path, args: false, file: None, alias: Some("back".into()) });
        let at = r.below(files[from].items.iter().take_while(|x| matches!(x, Item::Import(_))).count() + 1);
        files[from].items.insert(at, imp);
    }
    Proj { root, files: places.into_iter().zip(files).collect() }
}

pub fn uses(e: &Expr, name: &str) -> bool {
    match e {
        Expr::Path(p, a) => {
            (a.is_none() && p.len() == 1 && p[0] == name)
                || matches!(a, Some(Args::Call(v)) if v.iter().any(|x| uses(x, name)))
        }
        Expr::Pos(x) | Expr::Neg(x) | Expr::Opt(x) | Expr::Rep(x) | Expr::Plus(x) | Expr::RepRange(x, ..) | Expr::Sep(x, _) => uses(x, name),
        Expr::Seq(a, b, _) | Expr::Choice(a, b) => uses(a, name) || uses(b, name),
        _ => false,
    }
}

/// A small, aimed misspelling: a number written differently, an escape cut or stretched, a gap inside
/// or around a token opened or closed, a mark doubled or exchanged for its neighbour.
pub fn misspell(t: &str, r: &mut Rng) -> Option<String> {
    let b = t.as_bytes();
    let here = |r: &mut Rng, f: &dyn Fn(usize) -> bool| -> Option<usize> {
        let v: Vec<usize> = (0..b.len()).filter(|i| t.is_char_boundary(*i) && f(*i)).collect();
        if v.is_empty() {
            None
        } else {
            Some(*r.pick(&v))
        }
    };
    let digit = |i: usize| b[i].is_ascii_digit();
    let put = |at: usize, upto: usize, s: &str| Some(format!("{}{s}{}", &t[..at], &t[upto..]));
    match r.below(6) {
        0 => {
            // The start of a number (or of digits in a name or an escape).
            let i = here(r, &|i| digit(i) && (i == 0 || !digit(i - 1)))?;
            let mut j = i;
            while j < b.len() && digit(j) {
                j += 1;
            }
            match r.below(6) {
                0 | 1 => put(i, i, *r.pick(&["0", "00", "0"])),
                2 => put(i, i, *r.pick(&["+", "-", "- ", "+ ", "+-", "--"])),
                3 => put(j, j, *r.pick(&["0", " 0", "_0", "u8", ".0", "e1"])),
                4 => put(i, j, *r.pick(&["", "0", "00", "-0", "+0", "4294967296", "18446744073709551615", "18446744073709551616", "9223372036854775808"])),
                _ => put(i + 1, i + 1, *r.pick(&[" ", "/**/", "_", "\n"])),
            }
        }
        1 => {
            let i = here(r, &|i| b[i] == b'\\' && i + 1 < b.len())?;
            match r.below(5) {
                0 => put(i + 1, i + 1, *r.pick(&["x", "u", "u{", "U{1f600}", "a", "b", "e", "X41", " ", "\\"])),
                1 => {
                    // The end of the letters of the escape.
                    let mut j = i + 1;
                    while j < b.len() && (b[j].is_ascii_hexdigit() || matches!(b[j], b'x' | b'u' | b'{')) {
                        j += 1;
                    }
                    match r.below(3) {
                        0 if j > i + 2 => put(j - 1, j, ""),
                        1 => put(j, j, *r.pick(&["0", "f", "F", "g", "00000"])),
                        _ => put(j, j, *r.pick(&["}", "{", " ", "\"", "'"])),
                    }
                }
                2 => put(i, i + 1, ""),
                3 => put(i, i, *r.pick(&["\\", "\\x7f", "\\x80", "\\u{0}", "\\u{10ffff}", "\\u{110000}", "\\u{dfff}", "\\u{}", "\\u{0000041}", "\\'", "\\\"", "\\0"])),
                _ => put(i, i, "\\u{41}"),
            }
        }
        2 => {
            // A gap inside or around a token.
            let i = here(r, &|_| true)?;
            put(i, i, *r.pick(&[" ", "\n", "\t", "/**/", "// c\n", "/* /* */ */", "\r\n", "\u{b}", "\u{c}", "\u{a0}", "/***/", "//!\n", "////\n", "/*"]))
        }
        3 => {
            let i = here(r, &|i| b[i].is_ascii_whitespace())?;
            let mut j = i;
            while j < b.len() && b[j].is_ascii_whitespace() {
                j += 1;
            }
            put(i, j, *r.pick(&["", "", "\t", "\r", "\r\n", "/**/"]))
        }
        4 if r.chance(1, 8) => {
            // Arguments or more after the path of an import.
            let i = t.find("use ")? + 4;
            let k = t[i..].find(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == ':')).unwrap_or(t.len() - i);
            put(i + k, i + k, *r.pick(&["(x)", "()", "[0..]", "::", "::super", "[..]", " as", " in \"\"", "(x, y)"]))
        }
        4 => {
            let i = here(r, &|i| b[i].is_ascii_punctuation())?;
            match r.below(4) {
                0 => put(i, i, &t[i..i + 1]),
                1 => put(i, i + 1, ""),
                2 => put(i, i + 1, *r.pick(&["~", "^", "-", "|", "*", "+", "?", "&", "!", "@", "$", "_", "(", ")", "{", "}", "[", "]", ".", ",", ":", "=", "<", ">", "\"", "'", "#", "/", ";"])),
                _ => put(i, i, *r.pick(&["pub ", "use ", "super", "in ", "as ", "PUSH", "PEEK", "i", "^", "r", "r#", "&&", "!!", "..", "::", ",", "<T>", "{,}", "{1,}", "{,2}", "{0,0}", "[..]", "[-1..0]", "(x)", "()", "|", "~ |"])),
            }
        }
        _ => {
            // A letter of a word.
            let i = here(r, &|i| b[i].is_ascii_alphanumeric() || b[i] == b'_')?;
            match r.below(4) {
                0 => put(i, i + 1, ""),
                1 => put(i, i + 1, &(b[i] as char).to_ascii_uppercase().to_string()),
                2 => put(i, i + 1, *r.pick(&["_", "0", "A", "z", "é", "-", "ß"])),
                _ => put(i, i, *r.pick(&["_", "9", "é", "-", "::", "\u{feff}", "r#"])),
            }
        }
    }
}
