//! Reference semantics: a recursive PEG evaluator over cloned state. It shares no code with the
//! library: the stack is a plain vector copied before every attempt, errors are derived from a
//! complete list of attempt records, trees and pairs are built as values.
use crate::prog::*;
use std::collections::{BTreeMap, BTreeSet};

pub type StackV = Vec<(u32, u32)>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Enter { node: u32, pos: u32, stack: StackV },
    /// `pos` is `u32::MAX` for failure (the stack is not observable then and left empty).
    Exit { node: u32, pos: u32, stack: StackV },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tree {
    pub tag: String,
    pub kids: Vec<Tree>,
}
impl Tree {
    pub fn leaf(tag: impl Into<String>) -> Self {
        Tree { tag: tag.into(), kids: vec![] }
    }
    pub fn node(tag: impl Into<String>, kids: Vec<Tree>) -> Self {
        Tree { tag: tag.into(), kids }
    }
    pub fn show(&self) -> String {
        if self.kids.is_empty() {
            self.tag.clone()
        } else {
            let v: Vec<String> = self.kids.iter().map(|k| k.show()).collect();
            format!("{}({})", self.tag, v.join(","))
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PairM {
    pub rule: String,
    pub start: usize,
    pub end: usize,
    pub kids: Vec<PairM>,
}
impl PairM {
    pub fn show(&self) -> String {
        let v: Vec<String> = self.kids.iter().map(|k| k.show()).collect();
        format!("{}({}, {}, [{}])", self.rule, self.start, self.end, v.join(", "))
    }
}

/// One attempt relevant to the error report.
#[derive(Clone, Debug)]
enum What {
    Touch,
    Expected(String),
    Unexpected(String),
    Special(String),
}
#[derive(Clone, Debug)]
struct Rec {
    pos: usize,
    by: Option<String>,
    what: What,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Report {
    pub pos: usize,
    /// enclosing rule -> (expected, unexpected, special)
    pub groups: BTreeMap<Option<String>, (BTreeSet<String>, BTreeSet<String>, BTreeSet<String>)>,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    /// End position, tree and pairs if it matched.
    pub ok: Option<(usize, Tree, Vec<PairM>)>,
    pub stack: StackV,
    pub report: Report,
    pub log: Vec<Ev>,
    /// Highest number of node entries allowed before everything refuses was reached.
    pub cancelled: bool,
    pub entries: u64,
    pub sim_calls: u64,
    pub panicked: bool,
    pub stats: Stats,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Stats {
    pub fail_clean: u64,
    pub fail_dirty: u64,
    pub match_ops: u64,
    pub special: u64,
    pub panics: u64,
    pub nested: u64,
    pub transient: u64,
    pub cancels: u64,
    pub rollbacks_dirty: u64,
    pub max_attempt_depth: u64,
    pub rules: u64,
}

struct M<'a> {
    c: &'a Case,
    b: Vec<usize>,
    stack: StackV,
    positive: bool,
    rules: Vec<(String, usize, bool)>,
    recs: Vec<Rec>,
    log: Vec<Ev>,
    entries: u64,
    budget: u64,
    sim_calls: u64,
    depth: Vec<usize>,
    st: Stats,
    attempts: u64,
    panicked: bool,
}

pub type Res = Option<(usize, Tree, Vec<PairM>)>;

pub fn rule_name(i: usize) -> String {
    format!("r{i}")
}

impl<'a> M<'a> {
    fn by(&self, pos: usize) -> Option<String> {
        self.rules.iter().rev().find(|r| r.1 != pos).map(|r| r.0.clone())
    }
    fn special(&mut self, pos: usize, s: String) {
        let by = self.by(pos);
        self.recs.push(Rec { pos, by, what: What::Special(s) });
    }
    fn rest(&self, pos: usize) -> &'a str {
        &self.c.input[pos..]
    }
    /// Byte position after skipping `n` characters, if there are that many.
    fn skip(&self, pos: usize, n: usize) -> Option<usize> {
        let mut it = self.rest(pos).chars();
        let mut p = pos;
        for _ in 0..n {
            p += it.next()?.len_utf8();
        }
        Some(p)
    }
    fn text(&self, s: (u32, u32)) -> &'a str {
        &self.c.input[s.0 as usize..s.1 as usize]
    }
    /// An attempt: on failure the stack is what it was.
    fn attempt<T>(&mut self, f: impl FnOnce(&mut Self) -> Option<T>) -> Option<T> {
        let saved = self.stack.clone();
        self.attempts += 1;
        self.st.max_attempt_depth = self.st.max_attempt_depth.max(self.attempts);
        let r = f(self);
        self.attempts -= 1;
        if self.panicked {
            return None;
        }
        if r.is_none() {
            if self.stack != saved {
                self.st.rollbacks_dirty += 1;
            }
            self.stack = saved;
        }
        r
    }
    fn apply(&mut self, ops: &[Op]) {
        for op in ops {
            match op {
                Op::Push(a, b) => {
                    let n = self.b.len() - 1;
                    let (a, b) = ((*a).min(n), (*b).min(n));
                    self.stack.push((self.b[a] as u32, self.b[b.max(a)] as u32));
                }
                Op::Pop => {
                    self.stack.pop();
                }
            }
        }
    }
    fn node(&mut self, id: usize, pos: usize) -> Res {
        if self.panicked {
            return None;
        }
        self.entries += 1;
        if self.entries > self.budget || self.entries > self.c.plan.cancel_at {
            self.st.cancels += 1;
            return None;
        }
        self.log.push(Ev::Enter { node: id as u32, pos: pos as u32, stack: self.stack.clone() });
        let r = self.eval(id, pos);
        if self.panicked {
            return None;
        }
        self.log.push(match &r {
            Some(x) => Ev::Exit { node: id as u32, pos: x.0 as u32, stack: self.stack.clone() },
            None => Ev::Exit { node: id as u32, pos: u32::MAX, stack: vec![] },
        });
        r
    }
    fn one_char(&self, pos: usize, f: impl Fn(char) -> bool) -> Option<(usize, char)> {
        let c = self.rest(pos).chars().next()?;
        f(c).then(|| (pos + c.len_utf8(), c))
    }
    fn eval(&mut self, id: usize, pos: usize) -> Res {
        let node = &self.c.nodes[id];
        let t = |p: usize, s: String| Some((p, Tree::leaf(s), vec![]));
        match &node.kind {
            Kind::Str(i) => {
                let s = STRS[*i];
                if self.rest(pos).starts_with(s) {
                    t(pos + s.len(), format!("str:{s:?}"))
                } else {
                    None
                }
            }
            Kind::Insens(i) => {
                let s = STRS[*i];
                let mut p = pos;
                for want in s.chars() {
                    let (q, _) = self.one_char(p, |c| c == want || (c.is_ascii() && c.to_ascii_lowercase() == want.to_ascii_lowercase()))?;
                    p = q;
                }
                t(p, format!("insens:{s:?}:{:?}", &self.c.input[pos..p]))
            }
            Kind::Range(i) => {
                let (lo, hi) = RANGES[*i];
                let (p, c) = self.one_char(pos, |c| lo <= c && c <= hi)?;
                t(p, format!("range:{c:?}"))
            }
            Kind::Char(i) => {
                let (p, c) = self.one_char(pos, |c| c == CHARS[*i])?;
                t(p, format!("char:{c:?}"))
            }
            Kind::Class(i) => {
                let f = class(CLASSES[*i]);
                let (p, c) = self.one_char(pos, f)?;
                t(p, format!("class:{c:?}"))
            }
            Kind::Any => {
                let (p, c) = self.one_char(pos, |_| true)?;
                t(p, format!("any:{c:?}"))
            }
            Kind::Skip(i) => {
                let p = self.skip(pos, SKIPS[*i])?;
                t(p, format!("skip:{pos}..{p}"))
            }
            Kind::Never => None,
            Kind::Empty => t(pos, "empty".into()),
            Kind::Soi => (pos == 0).then(|| (pos, Tree::leaf("soi"), vec![])),
            Kind::Eoi => (pos == self.c.input.len()).then(|| (pos, Tree::leaf("eoi"), vec![])),
            Kind::Newline => {
                for (s, n) in [("\r\n", "crlf"), ("\n", "lf"), ("\r", "cr")] {
                    if self.rest(pos).starts_with(s) {
                        return t(pos + s.len(), n.into());
                    }
                }
                None
            }
            Kind::Peek => match self.stack.last() {
                None => {
                    self.special(pos, "Nothing to pop or drop.".into());
                    None
                }
                Some(s) => {
                    let s = self.text(*s);
                    self.rest(pos).starts_with(s).then(|| (pos + s.len(), Tree::leaf(format!("peek:{pos}..{}", pos + s.len())), vec![]))
                }
            },
            Kind::PeekAll | Kind::PopAll => {
                let mut p = pos;
                for s in self.stack.clone().into_iter().rev() {
                    let s = self.text(s);
                    if !self.rest(p).starts_with(s) {
                        return None;
                    }
                    p += s.len();
                }
                if node.kind == Kind::PopAll {
                    self.stack.clear();
                    t(p, format!("popall:{pos}..{p}"))
                } else {
                    t(p, format!("peekall:{pos}..{p}"))
                }
            }
            Kind::Pop => match self.stack.pop() {
                None => {
                    self.special(pos, "Nothing to pop or drop.".into());
                    None
                }
                Some(sp) => {
                    let s = self.text(sp);
                    self.rest(pos).starts_with(s).then(|| (pos + s.len(), Tree::leaf(format!("pop:{:?}", s)), vec![]))
                }
            },
            Kind::Drop => match self.stack.pop() {
                None => {
                    self.special(pos, "Nothing to pop or drop.".into());
                    None
                }
                Some(_) => t(pos, "drop".into()),
            },
            Kind::Slice1(i) => self.slice(pos, SLICE1[*i], None),
            Kind::Slice2(i) => self.slice(pos, SLICE2[*i].0, Some(SLICE2[*i].1)),
            Kind::Push => {
                let (p, tr, pairs) = self.node(node.kids[0], pos)?;
                self.stack.push((pos as u32, p as u32));
                Some((p, Tree::node("push", vec![tr]), pairs))
            }
            Kind::Pos | Kind::Neg => {
                let saved = self.stack.clone();
                let pol = self.positive;
                let want = node.kind == Kind::Pos;
                self.positive = want;
                let r = self.node(node.kids[0], pos);
                if self.panicked {
                    return None;
                }
                self.positive = pol;
                if self.stack != saved {
                    self.st.rollbacks_dirty += 1;
                }
                self.stack = saved;
                match (want, r) {
                    (true, Some((_, tr, _))) => Some((pos, Tree::node("pos", vec![tr]), vec![])),
                    (false, None) => t(pos, "neg".into()),
                    _ => None,
                }
            }
            Kind::Opt => match self.attempt(|m| m.node(node.kids[0], pos)) {
                Some((p, tr, pairs)) => Some((p, Tree::node("some", vec![tr]), pairs)),
                None => t(pos, "none".into()),
            },
            Kind::Seq => {
                let mut p = pos;
                let mut kids = vec![];
                let mut pairs = vec![];
                for (i, k) in node.kids.iter().enumerate() {
                    if i > 0 {
                        p = self.node(node.trivia[i], p)?.0;
                    }
                    let (q, tr, ps) = self.node(*k, p)?;
                    p = q;
                    kids.push(tr);
                    pairs.extend(ps);
                }
                Some((p, Tree::node("seq", kids), pairs))
            }
            Kind::Choice => {
                for (i, k) in node.kids.iter().enumerate() {
                    if let Some((p, tr, ps)) = self.attempt(|m| m.node(*k, pos)) {
                        return Some((p, Tree::node(format!("choice{i}"), vec![tr]), ps));
                    }
                    if self.panicked {
                        return None;
                    }
                }
                None
            }
            Kind::Rep(i) => {
                let (lo, hi) = REPS[*i];
                let mut p = pos;
                let mut kids = vec![];
                let mut pairs = vec![];
                while kids.len() < hi {
                    let first = kids.is_empty();
                    let r = self.attempt(|m| {
                        let q = if first { p } else { m.node(node.trivia[0], p)?.0 };
                        m.node(node.kids[0], q)
                    });
                    match r {
                        Some((q, tr, ps)) => {
                            p = q;
                            kids.push(tr);
                            pairs.extend(ps);
                        }
                        None => break,
                    }
                }
                if kids.len() < lo {
                    return None;
                }
                Some((p, Tree::node("rep", kids), pairs))
            }
            Kind::Rule(i) => {
                let name = rule_name(*i);
                self.st.rules += 1;
                if let Some(l) = self.rules.last_mut() {
                    l.2 = true;
                }
                self.rules.push((name.clone(), pos, false));
                let r = self.node(node.kids[0], pos);
                if self.panicked {
                    return None;
                }
                let (_, _, had_inner) = self.rules.pop().unwrap();
                if !had_inner {
                    let by = self.by(pos);
                    let what = match (r.is_some(), self.positive) {
                        (false, true) => What::Expected(name.clone()),
                        (true, false) => What::Unexpected(name.clone()),
                        _ => What::Touch,
                    };
                    self.recs.push(Rec { pos, by, what });
                }
                let (p, tr, pairs) = r?;
                let pair = PairM { rule: name.clone(), start: pos, end: p, kids: pairs };
                Some((p, Tree::node(format!("{name}[{pos}..{p}]"), vec![tr]), vec![pair]))
            }
            Kind::Progress => {
                let r = self.node(node.kids[0], pos)?;
                (r.0 > pos).then_some(r)
            }
            Kind::Ref(target) => {
                if self.depth[id] >= self.c.depth_limit {
                    return None;
                }
                self.depth[id] += 1;
                let r = self.node(*target, pos);
                self.depth[id] -= 1;
                r
            }
            Kind::Sim(leaf) => {
                let call = self.sim_calls;
                self.sim_calls += 1;
                let out = match self.c.plan.transient.iter().find(|x| x.0 == call) {
                    Some(x) => {
                        self.st.transient += 1;
                        &x.1
                    }
                    None => {
                        let idx = self.b.iter().position(|x| *x == pos).unwrap();
                        let l = &self.c.plan.leaves[*leaf];
                        match l.get(idx) {
                            Some(o) => o,
                            None => return None,
                        }
                    }
                };
                match out {
                    Out::Match(n, ops) => {
                        let p = self.skip(pos, *n)?;
                        if !ops.is_empty() {
                            self.st.match_ops += 1;
                        }
                        self.apply(ops);
                        t(p, format!("sim{leaf}:{pos}..{p}"))
                    }
                    Out::Fail(ops) => {
                        if ops.is_empty() {
                            self.st.fail_clean += 1;
                        } else {
                            self.st.fail_dirty += 1;
                        }
                        self.apply(ops);
                        None
                    }
                    Out::Special(k) => {
                        self.st.special += 1;
                        let s = match k {
                            0 => "Nothing to pop or drop.".to_string(),
                            1 => "Repeated too many times.".to_string(),
                            _ => "Peek slice 5..-7 out of bound.".to_string(),
                        };
                        self.special(pos, s);
                        None
                    }
                    Out::Panic => {
                        self.st.panics += 1;
                        self.panicked = true;
                        None
                    }
                    Out::Nested(_) => {
                        self.st.nested += 1;
                        t(pos, format!("sim{leaf}:{pos}..{pos}"))
                    }
                }
            }
        }
    }
    fn slice(&mut self, pos: usize, a: isize, b: Option<isize>) -> Res {
        let n = self.stack.len() as isize;
        let norm = |x: isize| {
            if (0..=n).contains(&x) {
                Some(x)
            } else if x < 0 && x >= -n {
                Some(n + x)
            } else {
                None
            }
        };
        let (lo, hi) = match (norm(a), b.map_or(Some(n), norm)) {
            (Some(x), Some(y)) => (x, y),
            _ => {
                let e = b.map(|x| x.to_string()).unwrap_or_default();
                self.special(pos, format!("Peek slice {a}..{e} out of bound."));
                return None;
            }
        };
        let mut p = pos;
        let mut k = lo;
        while k < hi {
            let s = self.text(self.stack[k as usize]);
            if !self.rest(p).starts_with(s) {
                return None;
            }
            p += s.len();
            k += 1;
        }
        Some((p, Tree::leaf("slice"), vec![]))
    }
    fn report(&self, start: usize) -> Report {
        let pos = self.recs.iter().map(|r| r.pos).max().unwrap_or(start).max(start);
        let mut groups: BTreeMap<Option<String>, (BTreeSet<String>, BTreeSet<String>, BTreeSet<String>)> = BTreeMap::new();
        for r in self.recs.iter().filter(|r| r.pos == pos) {
            match &r.what {
                What::Touch => {}
                What::Expected(x) => {
                    groups.entry(r.by.clone()).or_default().0.insert(x.clone());
                }
                What::Unexpected(x) => {
                    groups.entry(r.by.clone()).or_default().1.insert(x.clone());
                }
                What::Special(x) => {
                    groups.entry(r.by.clone()).or_default().2.insert(x.clone());
                }
            }
        }
        Report { pos, groups }
    }
}

/// What a parse that was resumed a few times yields altogether: it fails if its last step does.
pub fn join(mut steps: Vec<Res>) -> Res {
    if steps.len() == 1 {
        return steps.pop().unwrap();
    }
    let end = steps.last()?.as_ref()?.0;
    let mut pairs = vec![];
    let mut kids = vec![];
    for s in steps {
        kids.push(match s {
            Some((_, t, ps)) => {
                pairs.extend(ps);
                t
            }
            None => Tree::leaf("failed"),
        });
    }
    Some((end, Tree::node("steps", kids), pairs))
}

pub const BUDGET: u64 = 3000;

/// Runs the case in the reference semantics.
pub fn run(c: &Case) -> Outcome {
    let b = c.boundaries();
    let n = b.len() - 1;
    let start = b[c.start.min(n)];
    let stack: StackV = c.stack.iter().map(|(x, y)| (b[(*x).min(n)] as u32, b[(*y).min(n).max((*x).min(n))] as u32)).collect();
    let mut m = M {
        c,
        stack,
        positive: true,
        rules: vec![],
        recs: vec![],
        log: vec![],
        entries: 0,
        budget: BUDGET,
        sim_calls: 0,
        depth: vec![0; c.nodes.len()],
        st: Stats::default(),
        attempts: 0,
        panicked: false,
        b,
    };
    let whole = matches!(c.api, Api::Whole | Api::WithWhole);
    let mut steps: Vec<Res> = vec![];
    let mut at = start;
    for k in 0..=c.resumes() {
        let before = m.stack.clone();
        let mut ok = m.node(c.root, at);
        if let (Some((p, ..)), true) = (&ok, whole && k == c.resumes()) {
            let p = *p;
            let what = if p == c.input.len() { What::Touch } else { What::Expected("EOI".into()) };
            m.recs.push(Rec { pos: p, by: None, what });
            if p != c.input.len() {
                ok = None;
            }
        }
        match &ok {
            Some((p, ..)) => at = *p,
            None if k == c.resumes() => {}
            None => {
                m.stack = before;
                at += m.rest(at).chars().next().map_or(0, |x| x.len_utf8());
            }
        }
        steps.push(ok);
    }
    let ok = join(steps);
    let report = m.report(start);
    Outcome {
        ok,
        report,
        cancelled: m.st.cancels > 0,
        entries: m.entries,
        stack: m.stack,
        log: m.log,
        sim_calls: m.sim_calls,
        panicked: m.panicked,
        stats: m.st,
    }
}
