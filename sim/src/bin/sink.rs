//! Simulator for rendering (C08): spans, positions, pairs, typed trees, error reports and grammar
//! expressions are rendered by the real code into simulated sinks and callbacks that refuse, run
//! full, accept part of a write, are interrupted or panic at seeded points.
use pest3::formatter::FormatOption;
use pest3::token::Pair;
use pest3::typed::{PairTree, TypedParser};
use pest3::{Position, Span};
use pest3_meta::parser as meta;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use sim::rng::{hash_str, mix, Rng};
use sim::sup::*;
use std::cell::RefCell;
use std::fmt::{self, Debug, Display, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use unicode_width::UnicodeWidthStr;

#[allow(dead_code, unused)]
mod gram {
    #[derive(pest3::Parser)]
    #[grammar_inline = r##"
use pest::stack as stack
letter = 'a'..'z'
word = letter+
num = pest::ascii_digit{1..3}
sign = "+" | "-" | i"Neg"
blank = (" " | pest::newline)*
look = &word ~ !num ~ word
saved(e) = stack::push(e) ~ stack::peek ~ stack::peek[0..1] ~ stack::peek_all
closed = saved(letter) ~ stack::pop
gone = stack::push(sign) ~ stack::drop ~ stack::push(letter) ~ stack::push(letter) ~ stack::pop_all
item = look | num | sign | closed | gone | word
main = item ~ (("," | ";") ^ item)* ~ word~? ~ pest::any*
strict = pest::soi ~ num ~ sign ~ word ~ pest::eoi
~ = blank
^ = (" " | "\n")*
"##]
    pub struct P;
}
use gram::{rules, Rule};
const RULES: [Rule; 6] = [Rule::main, Rule::item, Rule::word, Rule::num, Rule::letter, Rule::EOI];

// ---------------------------------------------------------------- scenario

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PairG {
    rule: usize,
    start: usize,
    end: usize,
    kids: Vec<PairG>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum ExprG {
    Str(String),
    Insens(String),
    Range(char, char),
    Path(Vec<String>),
    Call(Vec<String>, Vec<ExprG>),
    Slice(Vec<String>, Option<isize>, Option<isize>),
    Pos(Box<ExprG>),
    Neg(Box<ExprG>),
    Seq(Box<ExprG>, Box<ExprG>, u8),
    Choice(Box<ExprG>, Box<ExprG>),
    Opt(Box<ExprG>),
    Rep(Box<ExprG>),
    Plus(Box<ExprG>),
    Bounded(Box<ExprG>, Option<usize>, Option<usize>),
    Sep(Box<ExprG>, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Obj {
    Span(usize, usize),
    Pos(usize),
    Pair(PairG),
    Expr(ExprG),
    /// Typed tree of `main`, or the error report of `strict`.
    Tree,
    /// Error report of `strict` on the text.
    Report,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
enum Mode {
    Display,
    Debug,
    Pretty,
    /// `display` with callbacks of the given styles for spanned text, markers, numbers.
    Callbacks(u8, u8, u8),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
enum Fault {
    /// Write number `at` (modulo the number a fault-free rendering makes) accepts `keep` bytes at
    /// most and fails; later writes fail too when `sticky`.
    Write { at: u32, keep: u32, sticky: bool },
    /// The sink holds this many bytes (modulo the full size plus 2).
    Full { bytes: u32 },
    /// Callback number `at` (modulo) fails before, halfway through or after writing.
    Callback { at: u32, when: u8 },
    /// As above, but it panics.
    Panic { at: u32, when: u8 },
    /// A byte stream of the given capacity (modulo), with short writes of `step` bytes and an
    /// interruption before every `intr`-th write.
    Stream { bytes: u32, step: u32, intr: u32, zero: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    text: String,
    obj: Obj,
    mode: Mode,
    faults: Vec<Fault>,
}

// ---------------------------------------------------------------- sink

#[derive(Clone, Debug, PartialEq, Eq)]
enum Ev {
    Write(String),
    Callback(char, String),
}
#[derive(Default)]
struct Rec {
    text: String,
    writes: u64,
    callbacks: Vec<(char, String)>,
    refused: bool,
    /// What happened after the first refusal.
    after: Vec<Ev>,
    interrupts: u64,
    shorts: u64,
    hash: u64,
}
#[derive(Clone)]
struct Sink {
    rec: Rc<RefCell<Rec>>,
    fault: Option<Fault>,
}
struct Injected;

impl Sink {
    fn new(fault: Option<Fault>) -> Self {
        Sink { rec: Default::default(), fault }
    }
    fn callback(&mut self, kind: char, text: &str, style: u8) -> fmt::Result {
        let n = {
            let mut r = self.rec.borrow_mut();
            if r.refused {
                r.after.push(Ev::Callback(kind, text.into()));
            }
            r.callbacks.push((kind, text.into()));
            r.callbacks.len() as u64 - 1
        };
        let hit = match self.fault {
            Some(Fault::Callback { at, when }) if at as u64 == n => Some((when % 3, false)),
            Some(Fault::Panic { at, when }) if at as u64 == n => Some((when % 3, true)),
            _ => None,
        };
        let out = styled(style, text);
        let fail = |s: &Sink, panics: bool| -> fmt::Result {
            s.rec.borrow_mut().refused = true;
            if panics {
                std::panic::panic_any(Injected)
            }
            Err(fmt::Error)
        };
        match hit {
            Some((0, p)) => fail(self, p),
            Some((1, p)) => {
                let mut k = out.len() / 2;
                while !out.is_char_boundary(k) {
                    k -= 1;
                }
                self.write_str(&out[..k])?;
                fail(self, p)
            }
            Some((_, p)) => {
                self.write_str(&out)?;
                fail(self, p)
            }
            None if style == 4 => {
                for c in out.chars() {
                    self.write_char(c)?;
                }
                Ok(())
            }
            None if out.is_empty() => Ok(()),
            None => self.write_str(&out),
        }
    }
}
/// What the callback of a style writes for a text.
fn styled(style: u8, s: &str) -> String {
    match style {
        1 => format!("{{{s}}}"),
        2 => format!("\u{1b}[4m{s}\u{1b}[0m"),
        3 => String::new(),
        5 => format!("{s}{s}"),
        _ => s.to_owned(),
    }
}
fn cut(s: &str, keep: usize) -> &str {
    let mut k = keep.min(s.len());
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    &s[..k]
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let mut r = self.rec.borrow_mut();
        r.hash = mix(r.hash, hash_str(s));
        let n = r.writes;
        r.writes += 1;
        if r.refused {
            r.after.push(Ev::Write(s.into()));
        }
        match self.fault {
            Some(Fault::Write { at, keep, sticky }) => {
                if at as u64 == n {
                    let part = cut(s, keep as usize).to_owned();
                    r.text.push_str(&part);
                    r.refused = true;
                    return Err(fmt::Error);
                }
                if sticky && n > at as u64 {
                    return Err(fmt::Error);
                }
            }
            Some(Fault::Full { bytes }) => {
                let left = (bytes as usize).saturating_sub(r.text.len());
                if s.len() > left {
                    let part = cut(s, left).to_owned();
                    r.text.push_str(&part);
                    r.refused = true;
                    return Err(fmt::Error);
                }
            }
            _ => {}
        }
        r.text.push_str(s);
        Ok(())
    }
}
/// Byte stream with short writes, interruptions and a limited capacity.
struct Stream {
    bytes: Vec<u8>,
    cap: usize,
    step: usize,
    intr: u64,
    zero: bool,
    calls: u64,
    rec: Rc<RefCell<Rec>>,
}
impl std::io::Write for Stream {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        let mut r = self.rec.borrow_mut();
        if r.refused {
            r.after.push(Ev::Write(String::from_utf8_lossy(b).into()));
        }
        if self.intr > 0 && self.calls % self.intr == 0 && !r.refused {
            r.interrupts += 1;
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let left = self.cap - self.bytes.len();
        if left == 0 && !b.is_empty() {
            r.refused = true;
            return if self.zero { Ok(0) } else { Err(std::io::Error::from_raw_os_error(28)) };
        }
        let n = b.len().min(self.step).min(left);
        if n < b.len() {
            r.shorts += 1;
        }
        self.bytes.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

// ---------------------------------------------------------------- real objects

fn pair(p: &PairG) -> Pair<Rule> {
    Pair { rule: RULES[p.rule % RULES.len()], start: p.start, end: p.end, children: p.kids.iter().map(pair).collect() }
}
fn trivia(t: u8) -> meta::Trivia {
    match t % 3 {
        0 => meta::Trivia::None,
        1 => meta::Trivia::Optional,
        _ => meta::Trivia::Mandatory,
    }
}
fn node(e: &ExprG) -> meta::ParseNode {
    meta::ParseNode { expr: expr(e), span: meta::Span { path: "g.pest".into(), start: 0, end: 1 } }
}
fn expr(e: &ExprG) -> meta::ParseExpr {
    use meta::ParseExpr as P;
    let b = |e: &ExprG| Box::new(node(e));
    match e {
        ExprG::Str(s) => P::Str(s.clone()),
        ExprG::Insens(s) => P::Insens(s.clone()),
        ExprG::Range(x, y) => P::Range(*x, *y),
        ExprG::Path(p) => P::Path(p.clone(), None),
        ExprG::Call(p, a) => P::Path(p.clone(), Some(meta::PathArgs::Call(a.iter().map(node).collect()))),
        ExprG::Slice(p, x, y) => P::Path(p.clone(), Some(meta::PathArgs::Slice(meta::Range { start: *x, end: *y }))),
        ExprG::Pos(x) => P::PosPred(b(x)),
        ExprG::Neg(x) => P::NegPred(b(x)),
        ExprG::Seq(x, y, t) => P::Seq(b(x), b(y), trivia(*t)),
        ExprG::Choice(x, y) => P::Choice(b(x), b(y)),
        ExprG::Opt(x) => P::Opt(b(x)),
        ExprG::Rep(x) => P::Rep(b(x)),
        ExprG::Plus(x) => P::RepOnce(b(x)),
        ExprG::Bounded(x, l, h) => P::RepRange(b(x), meta::Range { start: *l, end: *h }),
        ExprG::Sep(x, t) => P::Separated(b(x), trivia(*t)),
    }
}

/// Renders the object of a case; `via` receives something to format.
fn with_object<T>(case: &Case, via: impl FnOnce(&dyn Rendered) -> T) -> T {
    struct S<'a>(Span<'a>);
    struct P<'a>(Position<'a>);
    struct D<X>(X);
    impl Rendered for S<'_> {
        fn disp(&self) -> &dyn Display {
            &self.0
        }
        fn dbg(&self) -> &dyn Debug {
            &self.0
        }
        fn callbacks(&self, s: &mut Sink, k: (u8, u8, u8)) -> fmt::Result {
            self.0.display(
                s,
                FormatOption::new(
                    move |t: &str, f: &mut Sink| f.callback('s', t, k.0),
                    move |t: &str, f: &mut Sink| f.callback('m', t, k.1),
                    move |t: &str, f: &mut Sink| f.callback('n', t, k.2),
                ),
            )
        }
    }
    impl Rendered for P<'_> {
        fn disp(&self) -> &dyn Display {
            &self.0
        }
        fn dbg(&self) -> &dyn Debug {
            &self.0
        }
        fn callbacks(&self, s: &mut Sink, k: (u8, u8, u8)) -> fmt::Result {
            self.0.display(
                s,
                FormatOption::new(
                    move |t: &str, f: &mut Sink| f.callback('s', t, k.0),
                    move |t: &str, f: &mut Sink| f.callback('m', t, k.1),
                    move |t: &str, f: &mut Sink| f.callback('n', t, k.2),
                ),
            )
        }
    }
    impl<X: Display + Debug> Rendered for D<X> {
        fn disp(&self) -> &dyn Display {
            &self.0
        }
        fn dbg(&self) -> &dyn Debug {
            &self.0
        }
    }
    struct Only<X>(X);
    impl<X: Debug> Rendered for Only<X> {
        fn disp(&self) -> &dyn Display {
            unreachable!()
        }
        fn dbg(&self) -> &dyn Debug {
            &self.0
        }
    }
    match &case.obj {
        Obj::Span(a, b) => via(&S(Span::new(&case.text, *a, *b).expect("span of the scenario"))),
        Obj::Pos(a) => via(&P(Position::new(&case.text, *a).expect("position of the scenario"))),
        Obj::Pair(p) => via(&D(pair(p))),
        Obj::Expr(e) => match e {
            // Every type with a rendering of its own.
            ExprG::Call(..) | ExprG::Slice(..) => match expr(e) {
                meta::ParseExpr::Path(_, Some(a)) if case.text.len() % 2 == 1 => via(&D(a)),
                x => via(&D(x)),
            },
            _ if case.text.len() % 2 == 1 => via(&D(node(e))),
            _ => via(&D(expr(e))),
        },
        Obj::Tree => match gram::P::try_parse_partial::<rules::main>(&case.text) {
            Ok((_, t)) => {
                if case.text.len() % 3 == 0 {
                    via(&D(t.as_pair_tree()))
                } else {
                    via(&Only(t))
                }
            }
            Err(e) => via(&D(e)),
        },
        Obj::Report => match gram::P::try_parse::<rules::strict>(&case.text) {
            Ok(t) => via(&Only(t)),
            Err(e) => via(&D(e)),
        },
    }
}
/// `Display` exists for everything but successful trees.
fn displayable(case: &Case) -> bool {
    match case.obj {
        Obj::Tree => case.text.len() % 3 == 0 || gram::P::try_parse_partial::<rules::main>(&case.text).is_err(),
        Obj::Report => gram::P::try_parse::<rules::strict>(&case.text).is_err(),
        _ => true,
    }
}
trait Rendered {
    fn disp(&self) -> &dyn Display;
    fn dbg(&self) -> &dyn Debug;
    fn callbacks(&self, _s: &mut Sink, _k: (u8, u8, u8)) -> fmt::Result {
        unreachable!()
    }
}
fn render(o: &dyn Rendered, mode: Mode, s: &mut Sink) -> fmt::Result {
    match mode {
        Mode::Display => write!(s, "{}", o.disp()),
        Mode::Debug => write!(s, "{:?}", o.dbg()),
        Mode::Pretty => write!(s, "{:#?}", o.dbg()),
        Mode::Callbacks(a, b, c) => o.callbacks(s, (a, b, c)),
    }
}

// ---------------------------------------------------------------- reference

fn visible(s: &str) -> String {
    s.chars()
        .map(|c| match c as u32 {
            x @ 0..=0x1f => char::from_u32(0x2400 + x).unwrap(),
            0x7f => '\u{2421}',
            _ => c,
        })
        .collect()
}
struct Page {
    out: String,
    calls: Vec<(char, String)>,
    styles: (u8, u8, u8),
    digits: usize,
}
impl Page {
    fn call(&mut self, kind: char, s: &str) {
        let st = match kind {
            's' => self.styles.0,
            'm' => self.styles.1,
            _ => self.styles.2,
        };
        self.out.push_str(&styled(st, s));
        self.calls.push((kind, s.into()));
    }
    fn margin(&mut self, number: Option<usize>) {
        match number {
            Some(n) => {
                let t = n.to_string();
                let t = " ".repeat(self.digits - t.len()) + &t;
                self.call('n', &t)
            }
            None => self.out.push_str(&" ".repeat(self.digits)),
        }
        self.out.push(' ');
        self.call('n', "|");
    }
    fn text(&mut self, s: &str) {
        self.out.push_str(s)
    }
    fn pad(&mut self, n: usize) {
        self.out.push_str(&" ".repeat(n))
    }
}
fn wide(s: &str) -> usize {
    s.width_cjk()
}
/// Lines with their first byte.
fn lines(text: &str) -> Vec<(usize, &str)> {
    let mut v = vec![];
    let mut p = 0;
    for l in text.split_inclusive('\n') {
        v.push((p, l));
        p += l.len();
    }
    if v.is_empty() {
        v.push((0, ""));
    }
    v
}
fn ref_span(text: &str, a: usize, b: usize, styles: (u8, u8, u8)) -> Page {
    let ls = lines(text);
    // A boundary between two lines belongs to the line that ends there.
    let find = |p: usize| ls.iter().position(|(s, l)| s + l.len() >= p).unwrap();
    let (i, j) = (find(a), find(b));
    let mut pg = Page { out: String::new(), calls: vec![], styles, digits: (j + 1).to_string().len() };
    let row = |k: usize| visible(ls[k].1);
    let before_a = visible(&text[ls[i].0..a]);
    if i == j {
        let mid = visible(&text[a..b]);
        let rest = visible(&text[b..ls[j].0 + ls[j].1.len()]);
        pg.margin(None);
        pg.text("\n");
        pg.margin(Some(i + 1));
        pg.text(" ");
        pg.text(&before_a);
        pg.call('s', &mid);
        pg.text(&rest);
        pg.text("\n");
        pg.margin(None);
        pg.text(" ");
        pg.pad(wide(&before_a));
        pg.call('m', &"^".repeat(wide(&mid)));
        pg.text("\n");
        return pg;
    }
    pg.margin(None);
    pg.text(" ");
    pg.pad(wide(&before_a));
    pg.call('m', "v");
    pg.text("\n");
    pg.margin(Some(i + 1));
    pg.text(" ");
    pg.text(&before_a);
    pg.call('s', &visible(&text[a..ls[i].0 + ls[i].1.len()]));
    pg.text("\n");
    let inner: Vec<usize> = (i + 1..j).collect();
    for (n, k) in inner.iter().enumerate() {
        if inner.len() > 3 && n > 0 && n + 1 < inner.len() {
            if n == 1 {
                pg.margin(None);
                pg.text(" ...\n");
            }
            continue;
        }
        pg.margin(Some(k + 1));
        pg.text(" ");
        pg.call('s', &row(*k));
        pg.text("\n");
    }
    let head = visible(&text[ls[j].0..b]);
    pg.margin(Some(j + 1));
    pg.text(" ");
    pg.call('s', &head);
    pg.text(&visible(&text[b..ls[j].0 + ls[j].1.len()]));
    pg.text("\n");
    pg.margin(None);
    pg.text(" ");
    pg.pad(wide(&head).saturating_sub(1));
    pg.call('m', "^");
    pg.text("\n");
    pg
}
fn ref_pos(text: &str, p: usize, styles: (u8, u8, u8)) -> Option<Page> {
    let ls = lines(text);
    let i = ls.iter().position(|(s, l)| s + l.len() > p)?;
    let mut pg = Page { out: String::new(), calls: vec![], styles, digits: (i + 1).to_string().len() };
    let former = visible(&text[ls[i].0..p]);
    pg.margin(None);
    pg.text("\n");
    pg.margin(Some(i + 1));
    pg.text(" ");
    pg.text(&visible(ls[i].1));
    pg.text("\n");
    pg.margin(None);
    pg.text(" ");
    pg.pad(wide(&former));
    pg.call('m', "^");
    pg.text("\n");
    Some(pg)
}
fn ref_pair(p: &PairG) -> String {
    let kids: Vec<String> = p.kids.iter().map(ref_pair).collect();
    format!("{:?}({}, {}, [{}])", RULES[p.rule % RULES.len()], p.start, p.end, kids.join(", "))
}
fn ref_expr(e: &ExprG) -> String {
    let t = |t: &u8| ["-", "~", "^"][(*t % 3) as usize];
    let n = |o: &Option<usize>| o.map_or(String::new(), |x| x.to_string());
    let s = |o: &Option<isize>| o.map_or(String::new(), |x| x.to_string());
    match e {
        ExprG::Str(s) => format!("{s:?}"),
        ExprG::Insens(s) => format!("^{s:?}"),
        ExprG::Range(a, b) => format!("{a:?}..{b:?}"),
        ExprG::Path(p) => p.join("::"),
        ExprG::Call(p, a) => format!("{}{}", p.join("::"), ref_call(a)),
        ExprG::Slice(p, x, y) => format!("{}[{}..{}]", p.join("::"), s(x), s(y)),
        ExprG::Pos(x) => format!("&{}", ref_expr(x)),
        ExprG::Neg(x) => format!("!{}", ref_expr(x)),
        ExprG::Seq(x, y, k) => format!("({} {} {})", ref_expr(x), t(k), ref_expr(y)),
        ExprG::Choice(x, y) => format!("({} | {})", ref_expr(x), ref_expr(y)),
        ExprG::Opt(x) => format!("{}?", ref_expr(x)),
        ExprG::Rep(x) => format!("{}*", ref_expr(x)),
        ExprG::Plus(x) => format!("{}+", ref_expr(x)),
        ExprG::Bounded(x, l, h) => format!("{}[{}..{}]", ref_expr(x), n(l), n(h)),
        ExprG::Sep(x, k) => format!("{}{}", ref_expr(x), t(k)),
    }
}
fn ref_call(a: &[ExprG]) -> String {
    format!("({})", a.iter().map(ref_expr).collect::<Vec<_>>().join(", "))
}
/// The text due, and the callbacks due, where known independently of the code.
fn due(case: &Case) -> (Option<String>, Option<Vec<(char, String)>>) {
    let st = match case.mode {
        Mode::Callbacks(a, b, c) => (a, b, c),
        _ => (0, 0, 0),
    };
    match (&case.obj, case.mode) {
        (Obj::Span(a, b), Mode::Display | Mode::Callbacks(..)) => {
            let p = ref_span(&case.text, *a, *b, st);
            (Some(p.out), Some(p.calls))
        }
        (Obj::Pos(a), Mode::Display | Mode::Callbacks(..)) => match ref_pos(&case.text, *a, st) {
            Some(p) => (Some(p.out), Some(p.calls)),
            None => (None, None),
        },
        (Obj::Span(a, b), Mode::Debug) => (Some(format!("Span {{ str: {:?}, start: {a}, end: {b} }}", &case.text[*a..*b])), None),
        (Obj::Pos(a), Mode::Debug) => (Some(format!("Position {{ pos: {a} }}")), None),
        (Obj::Pair(p), Mode::Display) => (Some(ref_pair(p)), None),
        (Obj::Expr(e), Mode::Display) => match e {
            ExprG::Call(_, a) if case.text.len() % 2 == 1 => (Some(ref_call(a)), None),
            ExprG::Slice(..) if case.text.len() % 2 == 1 => {
                let s = ref_expr(e);
                (Some(s[s.find('[').unwrap()..].to_owned()), None)
            }
            _ => (Some(ref_expr(e)), None),
        },
        _ => (None, None),
    }
}

// ---------------------------------------------------------------- judging

fn viol(class: impl Into<String>, detail: impl Into<String>) -> Option<Violation> {
    Some(Violation { class: class.into(), detail: detail.into() })
}
enum End {
    Ok,
    Err,
    Panic(String),
    Injected,
}
fn guarded(f: impl FnOnce() -> bool) -> End {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(true) => End::Ok,
        Ok(false) => End::Err,
        Err(p) if p.is::<Injected>() => End::Injected,
        Err(p) => End::Panic(
            p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into()),
        ),
    }
}
/// Rule that renders what happened as one short text.
fn head(case: &Case) -> String {
    format!("{:?} of {:?} {:?}", case.mode, case.text, case.obj)
}

fn judge(case: &Case, res: &mut RunResult) -> Option<Violation> {
    with_object(case, |o| {
        // Healthy sink: the full text.
        let mut s = Sink::new(None);
        let rec = s.rec.clone();
        let end = guarded(|| render(o, case.mode, &mut s).is_ok());
        let (full, calls, writes) = {
            let r = rec.borrow();
            res.history = mix(r.hash, hash_str(&head(case)));
            res.steps += r.writes + r.callbacks.len() as u64;
            (r.text.clone(), r.callbacks.clone(), r.writes)
        };
        match end {
            End::Ok => {}
            End::Err => return viol("a rendering fails although nothing refused", head(case)),
            End::Panic(p) => return viol("panic while rendering", format!("{}: {p}", head(case))),
            End::Injected => unreachable!(),
        }
        let (text_due, calls_due) = due(case);
        if let Some(t) = &text_due {
            if *t != full {
                return viol("wrong text", format!("{}\ndue:\n{t}\ngot:\n{full}", head(case)));
            }
        }
        if let (Some(c), Mode::Callbacks(..)) = (&calls_due, case.mode) {
            if *c != calls {
                return viol("wrong callbacks", format!("{}\ndue: {c:?}\ngot: {calls:?}", head(case)));
            }
        }
        for f in &case.faults {
            // Points are given modulo what a healthy rendering does.
            let f = match *f {
                Fault::Write { at, keep, sticky } => Fault::Write { at: (at as u64 % writes.max(1)) as u32, keep, sticky },
                Fault::Full { bytes } => Fault::Full { bytes: bytes % (full.len() as u32 + 2) },
                Fault::Callback { .. } | Fault::Panic { .. } if calls.is_empty() => continue,
                Fault::Callback { at, when } => Fault::Callback { at: at % calls.len() as u32, when },
                Fault::Panic { at, when } => Fault::Panic { at: at % calls.len() as u32, when },
                Fault::Stream { bytes, step, intr, zero } => {
                    if matches!(case.mode, Mode::Callbacks(..)) {
                        continue;
                    }
                    // An interruption before every write would never end.
                    Fault::Stream { bytes: bytes % (full.len() as u32 + 2), step: step.max(1), intr: if intr == 1 { 2 } else { intr }, zero }
                }
            };
            let mut sink = Sink::new(Some(f));
            let rec = sink.rec.clone();
            let (end, got) = if let Fault::Stream { bytes, step, intr, zero } = f {
                let mut st = Stream { bytes: vec![], cap: bytes as usize, step: step as usize, intr: intr as u64, zero, calls: 0, rec: rec.clone() };
                let end = guarded(|| {
                    use std::io::Write;
                    match case.mode {
                        Mode::Display => write!(st, "{}", o.disp()).is_ok(),
                        Mode::Debug => write!(st, "{:?}", o.dbg()).is_ok(),
                        _ => write!(st, "{:#?}", o.dbg()).is_ok(),
                    }
                });
                res.steps += st.calls;
                (end, st.bytes)
            } else {
                let end = guarded(|| render(o, case.mode, &mut sink).is_ok());
                let t = rec.borrow().text.clone().into_bytes();
                (end, t)
            };
            let r = rec.borrow();
            res.steps += r.writes + r.callbacks.len() as u64;
            res.count("interrupted write", r.interrupts);
            res.count("short write", r.shorts);
            if r.refused {
                res.nontrivial = true;
                res.count(
                    match f {
                        Fault::Write { keep: 0, .. } => "refused write",
                        Fault::Write { .. } => "torn write",
                        Fault::Full { .. } => "full sink",
                        Fault::Callback { .. } => "failing callback",
                        Fault::Panic { .. } => "panicking callback",
                        Fault::Stream { .. } => "full stream",
                    },
                    1,
                );
            }
            let what = || format!("{} with {f:?}", head(case));
            match (&end, r.refused) {
                (End::Panic(p), _) => return viol("panic while rendering to a refusing sink", format!("{}: {p}", what())),
                (End::Ok, true) => return viol("a refusal is not reported", format!("{}: accepted {:?} of {full:?}", what(), String::from_utf8_lossy(&got))),
                (End::Injected, true) if matches!(f, Fault::Panic { .. }) => {}
                (End::Injected, _) => return viol("unexpected panic", what()),
                (End::Err, true) if matches!(f, Fault::Panic { .. }) => return viol("a panic of a callback is swallowed", what()),
                (End::Err, false) => return viol("a failure is reported although nothing refused", what()),
                _ => {}
            }
            if !full.as_bytes().starts_with(&got) {
                return viol("accepted text is not a prefix", format!("{}: full {full:?}, accepted {:?}", what(), String::from_utf8_lossy(&got)));
            }
            if !r.refused && got != full.as_bytes() {
                return viol("incomplete text", format!("{}: full {full:?}, accepted {:?}", what(), String::from_utf8_lossy(&got)));
            }
            if !r.after.is_empty() {
                return viol("rendering goes on after a refusal", format!("{}: {:?}", what(), r.after));
            }
            if !calls.starts_with(&r.callbacks) {
                return viol("callbacks differ", format!("{}: {:?}", what(), r.callbacks));
            }
        }
        // Healthy again.
        let mut s = Sink::new(None);
        let rec = s.rec.clone();
        let end = guarded(|| render(o, case.mode, &mut s).is_ok());
        if !matches!(end, End::Ok) || rec.borrow().text != full {
            return viol("a repeated rendering differs", format!("{}: first {full:?}, then {:?}", head(case), rec.borrow().text));
        }
        res.sample = Some(format!("{} under {:?}: {} writes, {} callbacks", head(case), case.faults, writes, calls.len()));
        None
    })
}

// ---------------------------------------------------------------- generation

fn gen_text(r: &mut Rng) -> String {
    const PIECES: &[&str] = &[
        "a", "b", "Z", "0", "7", " ", "\t", "\n", "\n", "\n", "\r\n", "\r", "\u{0}", "\u{7f}", "\u{1b}", "ß", "中", "∆", "é", "👍", "\u{200b}",
        "e\u{301}", "-", "|", "^", "v", "\u{3000}", "\u{85}", "\u{2028}", "ｱ", "\"", "\\", "α", "“", "±", "①", "Ж", "\u{ad}", "❤\u{fe0f}",
    ];
    const WORDS: &[&str] = &["a", "abc", "12", "1", "+", "neg", "NEG", ",", ";", " ", "\n", "aaa", "ab", "abb", "+aa", "9999", "?", "中"];
    let mut s = String::new();
    let (set, n) = match r.below(10) {
        0 => (PIECES, 0),
        1..=4 => (PIECES, r.range(1, 10)),
        5 | 6 => (PIECES, r.range(5, 40)),
        7 => {
            // Enough lines for numbers of several digits.
            let n = if r.chance(1, 60) { *r.pick(&[998usize, 999, 1000]) } else { *r.pick(&[8usize, 9, 10, 11, 98, 99, 100, 101]) };
            for _ in 0..n {
                s.push_str(*r.pick(&["", "x", "中", "\r"]));
                s.push('\n');
            }
            (PIECES, r.below(6))
        }
        _ => (WORDS, r.range(1, 10)),
    };
    if r.chance(1, 40) {
        // A long line.
        let piece = *r.pick(&["a", "ab", "中", "α", " ", "\t", "é"]);
        s.push_str(&piece.repeat(*r.pick(&[70usize, 79, 80, 81, 99, 119, 120, 121, 127, 128, 200, 255, 256, 257, 300])));
    }
    for _ in 0..n {
        if r.chance(1, 12) {
            // Any control character, visible or not.
            s.push(char::from_u32(r.below(0x20) as u32).unwrap());
        }
        s.push_str(*r.pick(set));
    }
    s
}
fn boundary(r: &mut Rng, s: &str) -> usize {
    let b: Vec<usize> = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect();
    if r.chance(1, 3) {
        // Around line ends.
        let e: Vec<usize> = b.iter().copied().filter(|i| *i == 0 || *i == s.len() || s.as_bytes()[i - 1] == b'\n' || s.as_bytes()[*i] == b'\n').collect();
        return *r.pick(&e);
    }
    *r.pick(&b)
}
fn gen_pair(r: &mut Rng, depth: usize) -> PairG {
    let n = if depth == 0 { 0 } else { r.below(4) };
    PairG { rule: r.below(RULES.len()), start: r.below(300), end: r.below(300), kids: (0..n).map(|_| gen_pair(r, depth - 1)).collect() }
}
fn gen_path(r: &mut Rng) -> Vec<String> {
    (0..r.range(1, 3)).map(|_| r.pick(&["a", "rule", "pest", "x_1", "super"]).to_string()).collect()
}
fn gen_expr(r: &mut Rng, depth: usize) -> ExprG {
    let k = if depth == 0 { r.below(5) } else { r.below(15) };
    let b = |r: &mut Rng| Box::new(gen_expr(r, depth.saturating_sub(1)));
    let text = |r: &mut Rng| r.pick(&["", "a", "\"", "\n", "中", "a b", "\\", "'"]).to_string();
    match k {
        0 => ExprG::Str(text(r)),
        1 => ExprG::Insens(text(r)),
        2 => ExprG::Range(*r.pick(&['a', '\'', '\n', '"']), *r.pick(&['z', '\\', '中'])),
        3 => ExprG::Path(gen_path(r)),
        4 => {
            let p = gen_path(r);
            let e = |r: &mut Rng| r.chance(2, 3).then(|| r.below(9) as isize - 4);
            ExprG::Slice(p, e(r), e(r))
        }
        5 => {
            let p = gen_path(r);
            let n = r.below(4);
            ExprG::Call(p, (0..n).map(|_| *b(r)).collect())
        }
        6 => ExprG::Pos(b(r)),
        7 => ExprG::Neg(b(r)),
        8 => ExprG::Seq(b(r), b(r), r.below(3) as u8),
        9 => ExprG::Choice(b(r), b(r)),
        10 => ExprG::Opt(b(r)),
        11 => ExprG::Rep(b(r)),
        12 => ExprG::Plus(b(r)),
        13 => {
            let x = b(r);
            let e = |r: &mut Rng| r.chance(2, 3).then(|| r.below(30));
            ExprG::Bounded(x, e(r), e(r))
        }
        _ => ExprG::Sep(b(r), r.below(3) as u8),
    }
}
fn gen_fault(r: &mut Rng, callbacks: bool) -> Fault {
    match r.below(if callbacks { 10 } else { 7 }) {
        0..=2 => Fault::Write { at: r.below(1 << 16) as u32, keep: if r.chance(1, 2) { 0 } else { r.range(1, 6) as u32 }, sticky: r.chance(1, 2) },
        3 | 4 => Fault::Full { bytes: r.below(1 << 16) as u32 },
        5 | 6 if !callbacks => Fault::Stream {
            bytes: r.below(1 << 16) as u32,
            step: *r.pick(&[1, 2, 3, 7, 1000]),
            intr: *r.pick(&[0, 2, 3, 5]),
            zero: r.chance(1, 3),
        },
        5..=8 => Fault::Callback { at: r.below(1 << 16) as u32, when: r.below(3) as u8 },
        _ => Fault::Panic { at: r.below(1 << 16) as u32, when: r.below(3) as u8 },
    }
}
fn gen_case(r: &mut Rng) -> Case {
    let text = gen_text(r);
    let obj = match r.below(16) {
        0..=6 => {
            let (a, b) = (boundary(r, &text), boundary(r, &text));
            Obj::Span(a.min(b), a.max(b))
        }
        7 | 8 => Obj::Pos(boundary(r, &text)),
        9 | 10 => Obj::Pair(gen_pair(r, 3)),
        11..=13 => Obj::Expr(gen_expr(r, 4)),
        14 => Obj::Tree,
        _ => Obj::Report,
    };
    let cb = matches!(obj, Obj::Span(..) | Obj::Pos(..));
    let mut case = Case { text, obj, mode: Mode::Display, faults: vec![] };
    case.mode = match r.below(8) {
        0..=4 if cb => Mode::Callbacks(r.below(6) as u8, r.below(6) as u8, r.below(6) as u8),
        6 => Mode::Debug,
        7 => Mode::Pretty,
        _ => Mode::Display,
    };
    if case.mode == Mode::Display && !displayable(&case) {
        case.mode = Mode::Debug;
    }
    let n = r.range(1, 8);
    case.faults = (0..n).map(|_| gen_fault(r, matches!(case.mode, Mode::Callbacks(..)))).collect();
    case
}

fn subs_pair(p: &PairG) -> Vec<PairG> {
    let mut v = p.kids.clone();
    for i in 0..p.kids.len() {
        let mut d = p.clone();
        d.kids.remove(i);
        v.push(d);
        for k in subs_pair(&p.kids[i]) {
            let mut d = p.clone();
            d.kids[i] = k;
            v.push(d);
        }
    }
    v
}
fn subs_expr(e: &ExprG) -> Vec<ExprG> {
    use ExprG::*;
    let one = |x: &ExprG, f: &dyn Fn(Box<ExprG>) -> ExprG| {
        let mut v = vec![x.clone()];
        v.extend(subs_expr(x).into_iter().map(|y| f(Box::new(y))));
        v
    };
    match e {
        Pos(x) => one(x, &Pos),
        Neg(x) => one(x, &Neg),
        Opt(x) => one(x, &Opt),
        Rep(x) => one(x, &Rep),
        Plus(x) => one(x, &Plus),
        Bounded(x, l, h) => one(x, &|y| Bounded(y, *l, *h)),
        Sep(x, t) => one(x, &|y| Sep(y, *t)),
        Seq(x, y, t) => {
            let mut v = one(x, &|z| Seq(z, y.clone(), *t));
            v.extend(one(y, &|z| Seq(x.clone(), z, *t)));
            v
        }
        Choice(x, y) => {
            let mut v = one(x, &|z| Choice(z, y.clone()));
            v.extend(one(y, &|z| Choice(x.clone(), z)));
            v
        }
        Call(p, a) => {
            let mut v = a.clone();
            for i in 0..a.len() {
                let mut b = a.clone();
                b.remove(i);
                v.push(Call(p.clone(), b));
                for s in subs_expr(&a[i]) {
                    let mut b = a.clone();
                    b[i] = s;
                    v.push(Call(p.clone(), b));
                }
            }
            v
        }
        Path(p) if p.len() > 1 => vec![Path(p[..1].to_vec())],
        _ => vec![],
    }
}

struct Render;
impl Render {
    fn eval(&self, v: &Value) -> RunResult {
        let case: Case = serde_json::from_value(v["rendering"].clone()).expect("rendering");
        let mut res = RunResult { case: v.clone(), ..Default::default() };
        res.count(
            match case.obj {
                Obj::Span(..) => "spans",
                Obj::Pos(..) => "positions",
                Obj::Pair(..) => "pairs",
                Obj::Expr(..) => "grammar expressions",
                Obj::Tree => "typed trees",
                Obj::Report => "error reports",
            },
            1,
        );
        res.violation = judge(&case, &mut res);
        res
    }
}
impl Harness for Render {
    fn info(&self, _prop: &str) -> Info {
        Info {
            level: "exploration",
            rule: "one run = one random object rendered to a healthy sink, then once per fault of a random list, then to a healthy sink again; non-trivial: at least one fault fired; distinct by hash of the object and the write sequence",
            real: &["pest3_core formatter, Display and Debug of spans, positions, pairs, typed trees", "pest3_meta Display and Debug of grammar expressions", "rules generated by pest3_derive for the typed trees"],
            stub: &["sinks (fmt::Write and io::Write) and formatting callbacks", "unicode-width (dependency) is used by the reference as well"],
            assumptions: &["the position at the end of the text has no documented rendering: only its behaviour under faults is judged"],
            step_unit: "sink writes and callback calls",
            fault_kinds: &["refused write", "torn write", "full sink", "failing callback", "panicking callback", "full stream", "short write", "interrupted write"],
            quick_runs: 5_000_000,
            thorough_runs: 60_000_000,
            quick_cap: 80,
            thorough_cap: 600,
            workers: 8,
        }
    }
    fn run(&self, prop: &str, run_seed: u64, index: u64) -> RunResult {
        self.eval(&self.generate(prop, run_seed, index))
    }
    fn replay(&self, _prop: &str, case: &Value) -> RunResult {
        self.eval(case)
    }
    fn generate(&self, _prop: &str, run_seed: u64, _index: u64) -> Value {
        json!({"rendering": gen_case(&mut Rng::new(run_seed))})
    }
    fn shrink(&self, _prop: &str, case: &Value) -> Vec<Value> {
        let c: Case = serde_json::from_value(case["rendering"].clone()).unwrap();
        let mut out = vec![];
        if c.faults.len() > 1 {
            for i in 0..c.faults.len() {
                let mut d = c.clone();
                d.faults = vec![c.faults[i]];
                out.push(d);
            }
        }
        if c.faults.len() == 1 {
            let mut d = c.clone();
            d.faults.clear();
            out.push(d);
        }
        let ends: Vec<usize> = match c.obj {
            Obj::Span(a, b) => vec![a, b],
            Obj::Pos(a) => vec![a],
            _ => vec![],
        };
        for (i, ch) in c.text.char_indices() {
            let n = ch.len_utf8();
            let mv = |p: usize| if p > i { p - n } else { p };
            if ends.iter().any(|p| *p > i && *p < i + n) {
                continue;
            }
            let mut d = c.clone();
            d.text.replace_range(i..i + n, "");
            match &mut d.obj {
                Obj::Span(a, b) => {
                    *a = mv(*a);
                    *b = mv(*b);
                }
                Obj::Pos(a) => *a = mv(*a),
                _ => {}
            }
            out.push(d);
        }
        match &c.obj {
            Obj::Pair(p) => {
                for s in subs_pair(p) {
                    let mut d = c.clone();
                    d.obj = Obj::Pair(s);
                    out.push(d);
                }
            }
            Obj::Expr(e) => {
                for s in subs_expr(e) {
                    let mut d = c.clone();
                    d.obj = Obj::Expr(s);
                    out.push(d);
                }
            }
            _ => {}
        }
        if let Mode::Callbacks(a, b, k) = c.mode {
            if (a, b, k) != (0, 0, 0) {
                let mut d = c.clone();
                d.mode = Mode::Callbacks(0, 0, 0);
                out.push(d);
            }
        }
        out.retain(|d| d.mode != Mode::Display || displayable(d));
        out.into_iter().map(|c| json!({"rendering": c})).collect()
    }
    fn size(&self, _prop: &str, case: &Value) -> usize {
        case.to_string().len()
    }
}

fn main() {
    sim::sup::main(&Render)
}
