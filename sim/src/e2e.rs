//! Runs generated parsers (compiled from generated grammars) with simulated sub-parsers as rule
//! arguments and compares them with the reference meaning of the grammar text.
use crate::emodel::{self, FaultCall, Project, Start, G};
use crate::exec::{conv_pair, expected_message, message_info, report_of, stack_vec, text_of, Describe, ErrInfo, Mode};
use crate::gram::{Args, Expr, Tr};
use crate::model::{PairM, StackV, Tree};
use crate::prog::{Api, Op, Out, Plan};
use crate::rng::{mix, Rng};
use crate::sup::{Harness, Info, RunResult, Violation};
use pest3::typed::{EmptyPairContainer, PairContainer, PairTree, RuleType, Tracker, TypedNode, TypedParser};
use pest3::{Position, Span, Stack};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

// ---------------------------------------------------------------------------------------------
// Simulated sub-parsers

/// Sub-parser number `K` given to a rule as an argument.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct F<const K: usize> {
    text: String,
}
impl<const K: usize> EmptyPairContainer for F<K> {}
impl<const K: usize> Describe for F<K> {
    fn desc(&self) -> Tree {
        Tree::leaf(self.text.clone())
    }
}

#[derive(Default)]
struct Ctx {
    plan: Rc<Plan>,
    bounds: Vec<usize>,
    calls: u64,
    log: Vec<FaultCall>,
}
thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
    static SHALLOW: Cell<bool> = const { Cell::new(false) };
}

fn fault<'i, const K: usize, R: RuleType>(input: Position<'i>, stack: &mut Stack<Span<'i>>, tracker: &mut Tracker<'i, R>) -> Option<(Position<'i>, F<K>)> {
    let (out, bounds) = CTX.with(|c| {
        let c = &mut *c.borrow_mut();
        c.log.push(FaultCall { which: K, pos: input.pos() as u32, stack: stack_vec(stack) });
        let call = c.calls;
        c.calls += 1;
        let out = match c.plan.transient.iter().find(|x| x.0 == call) {
            Some(x) => Some(x.1.clone()),
            None => c.bounds.iter().position(|x| *x == input.pos()).and_then(|i| c.plan.leaves.get(K)?.get(i).cloned()),
        };
        (out, c.bounds.clone())
    });
    let text = text_of(&input);
    let apply = |ops: &[Op], stack: &mut Stack<Span<'i>>| {
        for op in ops {
            match op {
                Op::Push(a, b) => {
                    let n = bounds.len() - 1;
                    let (a, b) = ((*a).min(n), (*b).min(n));
                    stack.push(Span::new(text, bounds[a], bounds[b.max(a)]).expect("span of simulated push"));
                }
                Op::Pop => {
                    stack.pop();
                }
            }
        }
    };
    match out? {
        Out::Match(n, ops) => {
            let mut p = input.pos();
            let mut it = text[p..].chars();
            for _ in 0..n {
                p += it.next()?.len_utf8();
            }
            apply(&ops, stack);
            Some((Position::new(text, p).expect("position of simulated match"), F { text: format!("sim{K}:{}..{p}", input.pos()) }))
        }
        Out::Fail(ops) => {
            apply(&ops, stack);
            None
        }
        Out::Special(k) => {
            match k {
                0 => tracker.empty_stack(input),
                1 => tracker.repeat_too_many_times(input),
                _ => tracker.out_of_bound(input, 5, Some(-7)),
            }
            None
        }
        Out::Panic | Out::Nested(_) => None,
    }
}
impl<'i, const K: usize, R: RuleType> TypedNode<'i, R> for F<K> {
    fn try_parse_with_partial(input: Position<'i>, stack: &mut Stack<Span<'i>>, tracker: &mut Tracker<'i, R>) -> Option<(Position<'i>, Self)> {
        fault(input, stack, tracker)
    }
    fn check_with_partial(input: Position<'i>, stack: &mut Stack<Span<'i>>, tracker: &mut Tracker<'i, R>) -> Option<Position<'i>> {
        fault::<K, R>(input, stack, tracker).map(|x| x.0)
    }
}

// ---------------------------------------------------------------------------------------------
// Description of generated nodes

/// A generated rule: `getters` is only evaluated when the inside is wanted.
pub fn rule_tree(name: &str, span: &Span<'_>, content: &dyn Fn() -> Tree, getters: &dyn Fn() -> Vec<Tree>) -> Tree {
    let tag = format!("<{name}[{}..{}]", span.start(), span.end());
    if SHALLOW.with(|s| s.get()) {
        return Tree::leaf(tag);
    }
    let mut kids = vec![content()];
    kids.extend(getters());
    Tree::node(tag, kids)
}
/// What an accessor returned; rules in it appear as leaves.
pub fn getter<T: Describe>(name: &str, v: T) -> Tree {
    SHALLOW.with(|s| s.set(true));
    let t = v.desc();
    SHALLOW.with(|s| s.set(false));
    Tree::node(format!("get:{name}"), vec![t])
}
impl<T: Describe> Describe for &T {
    fn desc(&self) -> Tree {
        (**self).desc()
    }
}
impl<T: Describe> Describe for Vec<T> {
    fn desc(&self) -> Tree {
        Tree::node("vec", self.iter().map(|x| x.desc()).collect())
    }
}
macro_rules! tuples {
    ($($t:ident $k:tt),*) => {
        tuples!(@ [] $($t $k),*);
    };
    (@ [$($t:ident $k:tt),*]) => {};
    (@ [$($t:ident $k:tt),*] $u:ident $j:tt $(, $($rest:tt)*)?) => {
        impl<$($t: Describe,)* $u: Describe> Describe for ($($t,)* $u,) {
            fn desc(&self) -> Tree {
                Tree::node("tuple", vec![$(self.$k.desc(),)* self.$j.desc()])
            }
        }
        tuples!(@ [$($t $k,)* $u $j] $($($rest)*)?);
    };
}
tuples!(A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7, A8 8, A9 9, A10 10, A11 11, A12 12, A13 13, A14 14, A15 15, A16 16, A17 17, A18 18, A19 19, A20 20, A21 21, A22 22, A23 23, A24 24, A25 25, A26 26, A27 27, A28 28, A29 29);

/// Choices and sequences defined by a generated parser itself (more than 16 elements).
#[macro_export]
macro_rules! local_choice {
    ($c:path; $($t:ident $g:ident $k:literal),*) => {
        impl<$($t: $crate::exec::Describe),*> $crate::exec::Describe for $c {
            fn desc(&self) -> $crate::model::Tree {
                let mut found = vec![];
                $( if let Some(x) = self.$g() { found.push($crate::model::Tree::node(concat!("choice", $k), vec![x.desc()])); } )*
                if found.len() == 1 { found.pop().unwrap() } else { $crate::model::Tree::node("choice with several variants", found) }
            }
        }
    };
}
#[macro_export]
macro_rules! local_sequence {
    ($c:path; $($t:ident $r:ident $g:ident),*) => {
        impl<$($t: $crate::exec::Describe, $r),*> $crate::exec::Describe for $c {
            fn desc(&self) -> $crate::model::Tree {
                let ($($g,)*) = self.as_tuple();
                $crate::model::Tree::node("seq", vec![$($g.desc()),*])
            }
        }
    };
}

/// A character class is described by its character, whatever it is made of.
fn same_tree(real: &Tree, want: &Tree) -> bool {
    if let Some(c) = want.tag.strip_prefix("class:") {
        let mut t = real;
        while t.kids.len() == 1 {
            t = &t.kids[0];
        }
        return t.kids.is_empty() && t.tag.split_once(':').is_some_and(|x| x.1 == c);
    }
    real.tag == want.tag && real.kids.len() == want.kids.len() && real.kids.iter().zip(&want.kids).all(|(a, b)| same_tree(a, b))
}
/// First place where two trees differ.
fn first_difference(real: &Tree, want: &Tree) -> String {
    if real.tag == want.tag && real.kids.len() == want.kids.len() {
        for (a, b) in real.kids.iter().zip(&want.kids) {
            if !same_tree(a, b) {
                return format!("{} > {}", real.tag, first_difference(a, b));
            }
        }
    }
    format!("got {} instead of {}", real.show(), want.show())
}

// ---------------------------------------------------------------------------------------------
// Cases

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ECase {
    pub project: Rc<Project>,
    pub hash: String,
    /// Module path and name of the rule, and how many modules of the path the rule type belongs to.
    pub path: Vec<String>,
    pub rule: String,
    pub base: usize,
    pub input: String,
    pub plan: Plan,
    pub api: Api,
    /// Through `TypedParser` instead of the node.
    pub parser: bool,
    pub start: usize,
    pub stack: Vec<(usize, usize)>,
}
impl ECase {
    fn bounds(&self) -> Vec<usize> {
        let mut v: Vec<usize> = self.input.char_indices().map(|x| x.0).collect();
        v.push(self.input.len());
        v
    }
    fn initial_stack(&self) -> StackV {
        let b = self.bounds();
        let n = b.len() - 1;
        match self.api {
            Api::With | Api::WithWhole => self.stack.iter().map(|(x, y)| (b[(*x).min(n)] as u32, b[(*y).min(n).max((*x).min(n))] as u32)).collect(),
            _ => vec![],
        }
    }
    fn start_pos(&self) -> usize {
        match self.api {
            Api::With | Api::WithWhole => self.bounds()[self.start.min(self.input.chars().count())],
            _ => 0,
        }
    }
    fn whole(&self) -> bool {
        matches!(self.api, Api::WithWhole | Api::Whole)
    }
}

/// What the real parser did.
#[derive(Clone, Debug, Default)]
pub struct ERes {
    /// End (partial calls only), tree, pairs.
    pub ok: Option<(Option<usize>, Option<Tree>, Option<Vec<PairM>>)>,
    pub err: Option<ErrInfo>,
    pub stack: StackV,
    pub rolled_back: StackV,
    pub log: Vec<FaultCall>,
    pub note: Option<String>,
    pub panicked: Option<String>,
}

pub type PairsOf<T> = Option<fn(&T) -> Result<Vec<PairM>, String>>;
pub type RunFn = for<'i> fn(&'i str, &ECase, Mode) -> ERes;

#[derive(Clone)]
pub struct Entry {
    pub path: &'static [&'static str],
    pub rule: &'static str,
    pub base: usize,
    pub faults: usize,
    pub run: RunFn,
}
pub struct Table {
    pub project: &'static str,
    pub entries: Vec<Entry>,
}

pub fn pairs_of<R: std::fmt::Debug + PartialEq, T: PairContainer<R>>(v: &T) -> Result<Vec<PairM>, String> {
    let mut pairs = vec![];
    v.for_self_or_for_each_child_pair(&mut |p| pairs.push(p));
    let mut again = vec![];
    v.for_self_or_for_each_child_pair(&mut |p| again.push(p));
    if again != pairs {
        return Err("asking for the pairs twice gave different answers".into());
    }
    Ok(pairs.iter().map(conv_pair).collect())
}
/// The same for a rule that is not silent, through `PairTree` too.
pub fn tree_of<R: RuleType, T: PairTree<R>>(v: &T) -> Result<Vec<PairM>, String> {
    let pairs = pairs_of::<R, T>(v)?;
    let one = conv_pair(&v.as_pair_tree());
    if pairs.len() != 1 || pairs[0] != one {
        return Err(format!("the pair tree {} differs from the pairs of the node", one.show()));
    }
    if one.rule != format!("{:?}", T::get_rule()) || (one.start, one.end) != v.get_span() {
        return Err("the pair tree differs from get_rule and get_span".into());
    }
    let kids: Vec<PairM> = v.vec_children_pairs().iter().map(conv_pair).collect();
    if kids != one.kids {
        return Err("children of the pair tree differ from the children pairs".into());
    }
    Ok(pairs)
}

/// Runs one entry point of the generated parser `P` (rule type `R`) on the rule `T`.
pub fn drive<'i, P, R, T>(text: &'i str, c: &ECase, mode: Mode, own: String, pairs: PairsOf<T>) -> ERes
where
    R: RuleType + 'static,
    P: TypedParser<R>,
    T: TypedNode<'i, R> + Describe + Clone + PartialEq + std::fmt::Debug,
{
    let mut res = ERes::default();
    let value = |v: &T, res: &mut ERes| {
        if v.clone() != *v {
            res.note = Some("a copy of the node differs from it".into());
        }
        let _ = format!("{v:?}");
        if own != c.rule {
            res.note = Some(format!("the node of rule {} says it is {own}", c.rule));
        }
        let tree = v.desc();
        let pairs = pairs.and_then(|f| match f(v) {
            Ok(p) => Some(p),
            Err(e) => {
                res.note = Some(e);
                None
            }
        });
        (Some(tree), pairs)
    };
    match c.api {
        Api::With | Api::WithWhole => {
            let input = Position::new(text, c.start_pos()).unwrap();
            let mut stack: Stack<Span<'i>> = Stack::new();
            for (a, b) in c.initial_stack() {
                stack.push(Span::new(text, a as usize, b as usize).unwrap());
            }
            let mut tracker: Tracker<'i, R> = Tracker::new(input);
            stack.snapshot();
            match (mode, c.api == Api::WithWhole) {
                (Mode::Parse, false) => {
                    let r: Option<(Position<'i>, T)> =
                        if c.parser { P::try_parse_with_partial(input, &mut stack, &mut tracker) } else { T::try_parse_with_partial(input, &mut stack, &mut tracker) };
                    if let Some((p, v)) = r {
                        let (t, ps) = value(&v, &mut res);
                        res.ok = Some((Some(p.pos()), t, ps));
                    }
                }
                (Mode::Parse, true) => {
                    let r: Option<T> = if c.parser { P::try_parse_with(input, &mut stack, &mut tracker) } else { T::try_parse_with(input, &mut stack, &mut tracker) };
                    if let Some(v) = r {
                        let (t, ps) = value(&v, &mut res);
                        res.ok = Some((None, t, ps));
                    }
                }
                (Mode::Check, false) => {
                    if let Some(p) = T::check_with_partial(input, &mut stack, &mut tracker) {
                        res.ok = Some((Some(p.pos()), None, None));
                    }
                }
                (Mode::Check, true) => {
                    if T::check_with(input, &mut stack, &mut tracker) {
                        res.ok = Some((None, None, None));
                    }
                }
            }
            res.stack = stack_vec(&stack);
            stack.restore();
            res.rolled_back = stack_vec(&stack);
            res.err = Some(ErrInfo::Report(report_of(tracker)));
        }
        Api::Partial => match mode {
            Mode::Parse => {
                let r: Result<(Position<'i>, T), _> = if c.parser { P::try_parse_partial(text) } else { T::try_parse_partial(text) };
                match r {
                    Ok((p, v)) => {
                        let (t, ps) = value(&v, &mut res);
                        res.ok = Some((Some(p.pos()), t, ps));
                    }
                    Err(e) => res.err = Some(message_info(&e)),
                }
            }
            Mode::Check => match T::check_partial(text) {
                Ok(p) => res.ok = Some((Some(p.pos()), None, None)),
                Err(e) => res.err = Some(message_info(&e)),
            },
        },
        Api::Whole => match mode {
            Mode::Parse => {
                let r: Result<T, _> = if c.parser { P::try_parse(text) } else { T::try_parse(text) };
                match r {
                    Ok(v) => {
                        let (t, ps) = value(&v, &mut res);
                        res.ok = Some((None, t, ps));
                    }
                    Err(e) => res.err = Some(message_info(&e)),
                }
            }
            Mode::Check => match T::check(text) {
                Ok(()) => res.ok = Some((None, None, None)),
                Err(e) => res.err = Some(message_info(&e)),
            },
        },
    }
    res
}

/// For rule types of nested modules, which have no parser of their own.
pub struct Plain;
impl<R: RuleType> TypedParser<R> for Plain {}

fn execute(e: &Entry, c: &ECase, mode: Mode) -> ERes {
    CTX.with(|x| *x.borrow_mut() = Ctx { plan: Rc::new(c.plan.clone()), bounds: c.bounds(), calls: 0, log: vec![] });
    SHALLOW.with(|s| s.set(false));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (e.run)(&c.input, c, mode)));
    let mut res = match r {
        Ok(r) => r,
        Err(p) => {
            let text = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
            ERes { panicked: Some(text.unwrap_or_default()), ..ERes::default() }
        }
    };
    res.log = CTX.with(|x| std::mem::take(&mut x.borrow_mut().log));
    res
}

// ---------------------------------------------------------------------------------------------
// Inputs derived from the grammar

struct Derive<'g> {
    g: &'g G,
    r: &'g mut Rng,
    out: String,
    stack: Vec<String>,
    /// (sub-parser, character index, number of characters)
    faults: Vec<(usize, usize, usize)>,
    steps: usize,
    /// How long the text may become.
    limit: usize,
    alphabet: &'g [char],
}
const SAMPLES: &str = "aZ0 \n\té日-_\"{";

impl<'g> Derive<'g> {
    fn any(&mut self) -> char {
        *self.r.pick(self.alphabet)
    }
    fn pick_class(&mut self, f: impl Fn(char) -> bool) {
        for _ in 0..60 {
            let c = match self.r.below(4) {
                0 | 1 => self.any(),
                2 => char::from(self.r.below(128) as u8),
                _ => *self.r.pick(&['é', 'Ж', 'λ', '日', 'あ', 'ア', '한', '½', '２', '—', '∑', '🦀', 'ǅ', 'ª', '\u{a0}', 'º']),
            };
            if f(c) {
                self.out.push(c);
                return;
            }
        }
    }
    fn trivia(&mut self, t: Tr, inst: usize) {
        let k = match t {
            Tr::No => return,
            Tr::Opt => 0,
            Tr::Man => 1,
        };
        if let Some(r) = self.g.insts[inst].trivia[k] {
            let e = &self.g.insts[inst].m.rules[r].expr;
            self.go(e, emodel::Env::plain(inst));
        }
    }
    fn go(&mut self, e: &'g Expr, env: emodel::Env<'g>) {
        self.steps += 1;
        if self.out.len() > self.limit || self.steps > 25 * self.limit {
            return;
        }
        let g = self.g;
        let (e, env) = emodel::expand(g, e, env);
        match e {
            Expr::Str(s) => self.out.push_str(s),
            Expr::Insens(s) => {
                for c in s.chars() {
                    let c = if self.r.chance(1, 3) { c.to_ascii_uppercase() } else if self.r.chance(1, 2) { c.to_ascii_lowercase() } else { c };
                    self.out.push(c);
                }
            }
            Expr::Range(a, b) => {
                if a <= b {
                    let c = match self.r.below(4) {
                        0 => Some(*a),
                        1 => Some(*b),
                        _ => char::from_u32(self.r.range(*a as usize, (*b as usize).min(*a as usize + 0x3000)) as u32),
                    };
                    self.out.push(c.unwrap_or(*a));
                }
            }
            Expr::Path(p, a) => {
                match env.arg(p) {
                    Some(emodel::Bind::Fault(k)) => {
                        let n = self.r.weighted(&[2, 5, 2]);
                        self.faults.push((*k, self.out.chars().count(), n));
                        for _ in 0..n {
                            let c = self.any();
                            self.out.push(c);
                        }
                        return;
                    }
                    Some(emodel::Bind::Expr(x, en)) => {
                        let (x, en) = (*x, en.clone());
                        return self.go(x, en);
                    }
                    None => {}
                }
                match g.resolve(env.inst, p) {
                    Some(emodel::Target::Rule(k, r)) => {
                        let rule = &g.insts[k].m.rules[r];
                        let binds = match a {
                            Some(Args::Call(v)) => rule.args.iter().map(|s| s.as_str()).zip(v.iter().map(|x| emodel::Bind::Expr(x, env.clone()))).collect(),
                            _ => vec![],
                        };
                        self.go(&rule.expr, emodel::Env { inst: k, root: k == 0, inlined: false, args: Rc::new(binds) })
                    }
                    Some(emodel::Target::Builtin(v)) => self.builtin(&v, a, env),
                    None => {}
                }
            }
            Expr::Pos(_) | Expr::Neg(_) => {}
            Expr::Seq(..) => {
                for (tr, inst, x, en) in emodel::sequence(g, e, &env) {
                    self.trivia(tr, inst);
                    self.go(x, en);
                }
            }
            Expr::Choice(..) => {
                let v = emodel::choices(g, e, &env);
                let (x, en) = v[self.r.below(v.len())].clone();
                self.go(x, en)
            }
            Expr::Opt(x) => {
                if self.r.chance(2, 3) {
                    self.go(x, env)
                }
            }
            Expr::Rep(x) => self.rep(x, env, 0, usize::MAX),
            Expr::Plus(x) => self.rep(x, env, 1, usize::MAX),
            Expr::RepRange(x, lo, hi) => self.rep(x, env, lo.unwrap_or(0), hi.unwrap_or(usize::MAX)),
            Expr::Sep(x, _) => self.go(x, env),
        }
    }
    fn rep(&mut self, x: &'g Expr, env: emodel::Env<'g>, lo: usize, hi: usize) {
        let (tr, inst) = match x {
            Expr::Sep(_, t) => (*t, env.inst),
            _ => (Tr::No, env.inst),
        };
        let mut n = self.r.range(lo, (lo + 3).min(hi).max(lo));
        // Around the bounds.
        if self.r.chance(1, 8) {
            n = match self.r.below(3) {
                0 => lo.saturating_sub(1),
                1 => hi.min(lo + 4),
                _ => hi.min(lo + 4) + 1,
            };
        }
        if hi != usize::MAX && hi > lo + 6 && self.r.chance(1, 3) {
            n = hi + 1 - self.r.below(3);
        }
        if n > 10 {
            self.limit = self.limit.max((60 + self.out.len() + 4 * n).min(2000));
        }
        for i in 0..n {
            if i > 0 {
                self.trivia(tr, inst);
            }
            self.go(x, env.clone());
        }
    }
    fn builtin(&mut self, v: &[String], a: &'g Option<Args>, env: emodel::Env<'g>) {
        let name: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
        match (name.as_slice(), a) {
            (["any"], _) => self.pick_class(|_| true),
            (["soi" | "eoi"], _) => {}
            (["newline"], _) => {
                let s = *self.r.pick(&["\n", "\r\n", "\r"]);
                self.out.push_str(s)
            }
            (["ascii_digit"], _) => self.pick_class(|c| c.is_ascii_digit()),
            (["ascii_nonzero_digit"], _) => self.pick_class(|c| ('1'..='9').contains(&c)),
            (["ascii_bin_digit"], _) => self.pick_class(|c| c == '0' || c == '1'),
            (["ascii_oct_digit"], _) => self.pick_class(|c| ('0'..='7').contains(&c)),
            (["ascii_hex_digit"], _) => self.pick_class(|c| c.is_ascii_hexdigit()),
            (["ascii_alpha_lower"], _) => self.pick_class(|c| c.is_ascii_lowercase()),
            (["ascii_alpha_upper"], _) => self.pick_class(|c| c.is_ascii_uppercase()),
            (["ascii_alpha"], _) => self.pick_class(|c| c.is_ascii_alphabetic()),
            (["ascii_alphanumeric"], _) => self.pick_class(|c| c.is_ascii_alphanumeric()),
            (["ascii"], _) => self.pick_class(|c| c.is_ascii()),
            (["unicode", n], _) => {
                let f = emodel::unicode(n);
                self.pick_class(f)
            }
            (["stack", "push"], Some(Args::Call(x))) => {
                let at = self.out.len();
                self.go(&x[0], env);
                let s = self.out[at..].to_string();
                self.stack.push(s);
            }
            (["stack", "peek"], Some(Args::Slice(x, y))) => {
                let n = self.stack.len() as isize;
                let norm = |x: isize| if x < 0 { n + x } else { x };
                let (lo, hi) = (norm(x.unwrap_or(0)), y.map_or(n, norm));
                for k in lo.max(0)..hi.min(n) {
                    let s = self.stack[k as usize].clone();
                    self.out.push_str(&s);
                }
            }
            (["stack", "peek"], _) => {
                let s = self.stack.last().cloned().unwrap_or_default();
                self.out.push_str(&s)
            }
            (["stack", "pop"], _) => {
                let s = self.stack.pop().unwrap_or_default();
                self.out.push_str(&s)
            }
            (["stack", "drop"], _) => {
                self.stack.pop();
            }
            (["stack", n @ ("peek_all" | "pop_all")], _) => {
                let s: String = self.stack.iter().rev().cloned().collect();
                self.out.push_str(&s);
                if *n == "pop_all" {
                    self.stack.clear();
                }
            }
            _ => {}
        }
    }
}

fn alphabet(g: &G) -> Vec<char> {
    let mut v: Vec<char> = vec![];
    fn walk(e: &Expr, v: &mut Vec<char>) {
        match e {
            Expr::Str(s) | Expr::Insens(s) => v.extend(s.chars()),
            Expr::Range(a, b) => v.extend([*a, *b]),
            Expr::Path(_, Some(Args::Call(x))) => x.iter().for_each(|x| walk(x, v)),
            Expr::Path(..) => {}
            Expr::Pos(x) | Expr::Neg(x) | Expr::Opt(x) | Expr::Rep(x) | Expr::Plus(x) | Expr::RepRange(x, ..) | Expr::Sep(x, _) => walk(x, v),
            Expr::Seq(a, b, _) | Expr::Choice(a, b) => {
                walk(a, v);
                walk(b, v);
            }
        }
    }
    for i in &g.insts {
        for r in &i.m.rules {
            walk(&r.expr, &mut v);
        }
    }
    v.extend(SAMPLES.chars());
    v
}

// ---------------------------------------------------------------------------------------------
// Harness

struct Loaded {
    project: Rc<Project>,
    hash: String,
    g: G,
    alphabet: Vec<char>,
    entries: Vec<Entry>,
}

pub struct E2e {
    all: Vec<Loaded>,
    by_hash: BTreeMap<String, usize>,
}

impl E2e {
    pub fn new(tables: Vec<Table>) -> Self {
        let all: Vec<Loaded> = tables
            .into_iter()
            // Every rule of the grammar may be inlined.
            .filter(|t| !t.entries.is_empty())
            .map(|t| {
                let project: Rc<Project> = serde_json::from_str(t.project).expect("project");
                let g = G::new(&project).expect("the reference refuses a generated grammar");
                let alphabet = alphabet(&g);
                Loaded { hash: project.hash(), project, g, alphabet, entries: t.entries }
            })
            .collect();
        let by_hash = all.iter().enumerate().map(|(i, l)| (l.hash.clone(), i)).collect();
        E2e { all, by_hash }
    }
    fn entry(&self, c: &ECase) -> Option<(&Loaded, &Entry)> {
        let l = &self.all[*self.by_hash.get(&c.hash)?];
        let e = l.entries.iter().find(|e| e.rule == c.rule && e.base == c.base && e.path.iter().eq(c.path.iter()))?;
        Some((l, e))
    }
    fn make(&self, prop: &str, seed: u64) -> ECase {
        let mut r = Rng::new(seed);
        let l = &self.all[r.below(self.all.len())];
        let e = &l.entries[r.below(l.entries.len())];
        let values = prop == "C14";
        let api = match r.below(12) {
            0..=4 => Api::With,
            5..=6 => Api::WithWhole,
            7..=8 => Api::Partial,
            _ => Api::Whole,
        };
        let inst = l.g.find(&e.path.iter().map(|s| s.to_string()).collect::<Vec<_>>()).unwrap();
        let rule = l.g.insts[inst].rules[e.rule];
        let rg = &l.g.insts[inst].m.rules[rule];
        // Text before the start, only for caller-supplied positions.
        let with = matches!(api, Api::With | Api::WithWhole);
        let mut lead = String::new();
        if with && r.chance(1, 3) {
            for _ in 0..r.range(1, 4) {
                lead.push(*r.pick(&l.alphabet));
            }
        }
        let start = lead.chars().count();
        let mut stack = vec![];
        if with && r.chance(1, 2) {
            for _ in 0..r.range(1, 3) {
                let a = r.below(start + 3);
                stack.push((a, a + r.below(3)));
            }
        }
        let mut d = Derive { g: &l.g, r: &mut r, out: lead.clone(), stack: vec![], faults: vec![], steps: 0, limit: 60, alphabet: &l.alphabet };
        {
            let cs: Vec<char> = lead.chars().collect();
            d.stack = stack.iter().map(|(a, b)| cs.iter().take((*b).max(*a)).skip(*a).collect()).collect();
        }
        let binds = rg.args.iter().enumerate().map(|(i, n)| (n.as_str(), emodel::Bind::Fault(i))).collect();
        d.go(&rg.expr, emodel::Env { inst, root: inst == 0, inlined: false, args: Rc::new(binds) });
        let (mut text, faults) = (d.out, d.faults);
        let keep = if values { r.chance(4, 5) } else { r.chance(2, 5) };
        if !keep {
            let mut cs: Vec<char> = text.chars().collect();
            for _ in 0..r.range(1, 3) {
                let at = start + r.below(cs.len() - start + 1);
                match r.below(6) {
                    0 if at < cs.len() => {
                        cs.remove(at);
                    }
                    1 if at < cs.len() => cs[at] = *r.pick(&l.alphabet),
                    2 => cs.insert(at, *r.pick(&l.alphabet)),
                    3 => cs.truncate(at),
                    4 if at < cs.len() => {
                        let c = cs[at];
                        cs.insert(at, c);
                    }
                    _ => cs.extend((0..r.range(1, 3)).map(|_| *r.pick(&l.alphabet)).collect::<Vec<_>>()),
                }
            }
            text = cs.into_iter().collect();
        } else if !values && r.chance(1, 4) {
            text.push(*r.pick(&l.alphabet));
        }
        let n = text.chars().count();
        // Outcomes of the sub-parsers: around the derivation, with a per-run mixture elsewhere.
        let w: Vec<u32> = (0..5).map(|k| if r.chance(1, 4) { 0 } else { r.range(1, if k == 0 { 6 } else { 3 }) as u32 }).collect();
        let ops = |r: &mut Rng| -> Vec<Op> {
            (0..r.range(1, 3))
                .map(|_| {
                    if r.chance(3, 5) {
                        let a = r.below(n + 1);
                        Op::Push(a, a + r.below(3))
                    } else {
                        Op::Pop
                    }
                })
                .collect()
        };
        let outcome = |r: &mut Rng| -> Out {
            let w = if w.iter().all(|x| *x == 0) { vec![1, 0, 0, 0, 0] } else { w.clone() };
            match r.weighted(&w) {
                0 => Out::Match(r.weighted(&[2, 5, 2, 1]), vec![]),
                1 => Out::Match(r.weighted(&[2, 5, 2]), ops(r)),
                2 => Out::Fail(vec![]),
                3 => Out::Fail(ops(r)),
                _ => Out::Special(r.below(3) as u8),
            }
        };
        let mut leaves: Vec<Vec<Out>> = (0..e.faults).map(|_| (0..=n).map(|_| outcome(&mut r)).collect()).collect();
        for (k, at, len) in faults {
            if at <= n && r.chance(7, 8) {
                let o = if r.chance(1, 3) { ops(&mut r) } else { vec![] };
                leaves[k][at] = Out::Match(len, o);
            }
        }
        let mut transient = vec![];
        if e.faults > 0 && r.chance(1, 4) {
            for _ in 0..r.range(1, 2) {
                let at = r.below(6) as u64;
                transient.push((at, outcome(&mut r)));
            }
        }
        ECase {
            project: l.project.clone(),
            hash: l.hash.clone(),
            path: e.path.iter().map(|s| s.to_string()).collect(),
            rule: e.rule.to_string(),
            base: e.base,
            input: text,
            plan: Plan { leaves, transient, cancel_at: u64::MAX },
            api,
            parser: r.chance(1, 3),
            start,
            stack,
        }
    }
    fn check(&self, prop: &str, c: &ECase) -> RunResult {
        let mut res = RunResult { case: serde_json::to_value(c).unwrap(), ..RunResult::default() };
        let Some((l, e)) = self.entry(c) else {
            res.violation = Some(Violation { class: "setup: this program was not built for the grammar of the case".into(), detail: c.hash.clone() });
            return res;
        };
        let inst = l.g.find(&c.path).unwrap();
        let rule = l.g.insts[inst].rules[&c.rule];
        let values = prop == "C14";
        let s = Start { inst, rule, base: c.base, input: &c.input, plan: &c.plan, start: c.start_pos(), stack: c.initial_stack(), whole: c.whole(), getters: values };
        let Some(want) = emodel::run(&l.g, &s) else {
            res.count("discarded: too long for the reference", 1);
            res.nontrivial = false;
            return res;
        };
        let st = &want.stats;
        res.steps = st.steps;
        res.count("rules evaluated", st.rules);
        res.count("sub-parser refuses", st.clean);
        res.count("sub-parser changes the stack, then refuses", st.dirty);
        res.count("sub-parser matches and changes the stack", st.ops);
        res.count("sub-parser reports a stack error", st.special);
        res.count("outcome differs from call to call", st.transient);
        res.count("stack changes rolled back", st.rollbacks);
        res.count("sub-parser calls", want.log.len() as u64);
        res.count("accepted", want.ok.is_some() as u64);
        res.count("rejected", want.ok.is_none() as u64);
        res.count("accessor results compared", if want.ok.is_some() { st.getters } else { 0 });
        res.count("rules of imported modules", !c.path.is_empty() as u64);
        res.nontrivial = if values { want.ok.is_some() && st.steps > 4 } else { st.steps > 4 };
        let mut h = crate::rng::hash_str(&c.hash);
        h = mix(h, crate::rng::hash_str(&format!("{:?} {:?} {:?}", want.ok, want.report, want.log)));
        res.history = mix(h, crate::rng::hash_str(&format!("{:?}{:?}{}{}", c.api, c.input, c.rule, c.base)));
        if res.nontrivial {
            res.sample = Some(format!(
                "rule {} of a grammar with {} files on {:?}: {}",
                l.g.full(inst, rule),
                c.project.files.len(),
                c.input,
                want.ok.as_ref().map_or("rejected".to_string(), |x| format!("accepted to {}", x.0))
            ));
        }
        let err = |class: &str, detail: String| Some(Violation { class: class.into(), detail: format!("rule {}, input {:?}, {:?}: {detail}", l.g.full(inst, rule), c.input, c.api) });
        let modes: &[Mode] = if values { &[Mode::Parse] } else { &[Mode::Parse, Mode::Check] };
        for mode in modes {
            let real = execute(e, c, *mode);
            let m = if *mode == Mode::Parse { "parse" } else { "check" };
            if let Some(p) = &real.panicked {
                res.violation = err("a generated parser panics", format!("{m}: {p}"));
                return res;
            }
            if values {
                let (Some((_, Some(tree), pairs)), Some((_, wt, wp))) = (&real.ok, &want.ok) else { continue };
                if let Some(n) = &real.note {
                    res.violation = err("a generated node contradicts itself", n.clone());
                } else if !same_tree(tree, wt) {
                    let d = first_difference(tree, wt);
                    let class = if d.contains("> get:") { "an accessor returns something else than what was matched" } else { "the tree differs from the derivation" };
                    res.violation = err(class, d);
                } else if pairs.as_ref().is_some_and(|p| p != wp) {
                    let show = |v: &[PairM]| v.iter().map(|p| p.show()).collect::<Vec<_>>().join(", ");
                    res.violation = err("the pairs differ from the derivation", format!("[{}] instead of [{}]", show(pairs.as_ref().unwrap()), show(wp)));
                }
                if res.violation.is_some() {
                    return res;
                }
                continue;
            }
            match (&real.ok, &want.ok) {
                (Some(_), None) => {
                    res.violation = err("accepts what the grammar rejects", m.to_string());
                    return res;
                }
                (None, Some(w)) => {
                    res.violation = err("rejects what the grammar accepts", format!("{m}: should end at {}", w.0));
                    return res;
                }
                (Some((Some(p), ..)), Some(w)) if *p != w.0 => {
                    res.violation = err("stops at another position", format!("{m}: {p} instead of {}", w.0));
                    return res;
                }
                _ => {}
            }
            if real.log != want.log {
                let i = real.log.iter().zip(&want.log).take_while(|(a, b)| a == b).count();
                res.violation = err("calls its sub-parsers differently", format!("{m}: call {i}: {:?} instead of {:?}", real.log.get(i), want.log.get(i)));
                return res;
            }
            if matches!(c.api, Api::With | Api::WithWhole) {
                let init = c.initial_stack();
                if real.ok.is_some() && real.stack != want.stack {
                    res.violation = err("leaves another stack", format!("{m}: {:?} instead of {:?}", real.stack, want.stack));
                    return res;
                }
                if real.rolled_back != init {
                    res.violation = err("the enclosing attempt cannot be undone", format!("{m}: {:?} instead of {init:?}", real.rolled_back));
                    return res;
                }
            }
            let wanted = match c.api {
                Api::With | Api::WithWhole => Some(ErrInfo::Report(want.report.clone())),
                _ if want.ok.is_none() => Some(expected_message(&c.input, &want.report)),
                _ => None,
            };
            if real.err != wanted {
                res.violation = err("reports another error", format!("{m}: {:?} instead of {wanted:?}", real.err));
                return res;
            }
        }
        res
    }
}

impl Harness for E2e {
    fn info(&self, prop: &str) -> Info {
        Info {
            level: "exploration",
            rule: if prop == "C13" {
                "parser compiled from a generated grammar, run with seeded outcomes of the sub-parsers it is given; at least 5 expressions evaluated; distinct by grammar, rule, input, result, report and sub-parser calls"
            } else {
                "successful parse with a parser compiled from a generated grammar; at least 5 expressions evaluated; distinct by grammar, rule, input, tree, accessor results and sub-parser calls"
            },
            real: &["grammar parser and loader (pest3_meta)", "derive macro and code generator", "generated code, compiled by rustc", "combinators, stack, tracker, pairs, errors (pest3_core)"],
            stub: &["sub-parsers given as rule arguments: outcomes decided by the plan"],
            assumptions: &[
                "grammars stay within what the documentation allows: every name defined, no left recursion, no unbounded repetition of something that can match nothing, every argument used",
                "rule, argument and module names do not shadow one another",
                "the reference evaluates a grammar rule by rule as the documentation describes; unicode classes use the same tables as the library",
            ],
            step_unit: "expression evaluations",
            fault_kinds: &[
                "sub-parser refuses",
                "sub-parser changes the stack, then refuses",
                "sub-parser matches and changes the stack",
                "sub-parser reports a stack error",
                "outcome differs from call to call",
            ],
            quick_runs: 1_600_000,
            thorough_runs: 40_000_000,
            quick_cap: 60,
            thorough_cap: 420,
            workers: 8,
        }
    }
    fn run(&self, prop: &str, run_seed: u64, _index: u64) -> RunResult {
        self.check(prop, &self.make(prop, run_seed))
    }
    fn replay(&self, prop: &str, case: &Value) -> RunResult {
        self.check(prop, &serde_json::from_value(case.clone()).expect("case"))
    }
    fn generate(&self, prop: &str, run_seed: u64, _index: u64) -> Value {
        serde_json::to_value(self.make(prop, run_seed)).unwrap()
    }
    fn size(&self, _prop: &str, case: &Value) -> usize {
        let c: ECase = serde_json::from_value(case.clone()).expect("case");
        let leaf: usize = c
            .plan
            .leaves
            .iter()
            .flatten()
            .map(|o| match o {
                Out::Fail(v) => 2 * v.len(),
                Out::Match(n, v) => 1 + n + 2 * v.len(),
                _ => 4,
            })
            .sum();
        20 * c.input.chars().count() + 10 * c.stack.len() + 10 * c.plan.transient.len() + leaf + c.start + c.parser as usize
            + match c.api {
                Api::Partial => 0,
                Api::Whole => 1,
                Api::With => 2,
                Api::WithWhole => 3,
            }
    }
    fn shrink(&self, _prop: &str, case: &Value) -> Vec<Value> {
        let c: ECase = serde_json::from_value(case.clone()).expect("case");
        let mut out: Vec<ECase> = vec![];
        let cs: Vec<char> = c.input.chars().collect();
        let mut size = cs.len();
        while size >= 1 {
            let mut at = 0;
            while at < cs.len() {
                let end = (at + size).min(cs.len());
                let mut d = c.clone();
                d.input = cs[..at].iter().chain(&cs[end..]).collect();
                for l in d.plan.leaves.iter_mut() {
                    if l.len() == cs.len() + 1 {
                        l.drain(at..end);
                    }
                }
                if at < d.start {
                    d.start = d.start.saturating_sub(end - at);
                }
                out.push(d);
                at += size;
            }
            size /= 2;
        }
        for i in 0..c.stack.len() {
            let mut d = c.clone();
            d.stack.remove(i);
            out.push(d);
        }
        for i in 0..c.plan.transient.len() {
            let mut d = c.clone();
            d.plan.transient.remove(i);
            out.push(d);
        }
        if matches!(c.api, Api::With | Api::WithWhole) && c.stack.is_empty() && c.start == 0 {
            out.push(ECase { api: if c.api == Api::With { Api::Partial } else { Api::Whole }, ..c.clone() });
        }
        if c.whole() {
            out.push(ECase { api: if c.api == Api::Whole { Api::Partial } else { Api::With }, ..c.clone() });
        }
        if c.parser {
            out.push(ECase { parser: false, ..c.clone() });
        }
        for (k, l) in c.plan.leaves.iter().enumerate() {
            for (i, o) in l.iter().enumerate() {
                let mut simpler = vec![Out::Fail(vec![])];
                if let Out::Match(n, ops) = o {
                    simpler.push(Out::Match(*n, vec![]));
                    for j in 0..ops.len() {
                        let mut v = ops.clone();
                        v.remove(j);
                        simpler.push(Out::Match(*n, v));
                    }
                }
                for s in simpler {
                    if s != *o {
                        let mut d = c.clone();
                        d.plan.leaves[k][i] = s;
                        out.push(d);
                    }
                }
            }
        }
        out.into_iter().map(|c| serde_json::to_value(c).unwrap()).collect()
    }
    fn extra(&self, _prop: &str) -> serde_json::Map<String, Value> {
        let mut m = serde_json::Map::new();
        m.insert("grammars_compiled".into(), json!(self.all.len()));
        m.insert("grammar_files".into(), json!(self.all.iter().map(|l| l.project.files.len()).sum::<usize>()));
        m.insert("module_instances".into(), json!(self.all.iter().map(|l| l.g.insts.len()).sum::<usize>()));
        m.insert("rule_entry_points".into(), json!(self.all.iter().map(|l| l.entries.len()).sum::<usize>()));
        m
    }
}

/// Entry point of a generated program: everything runs on one thread with a large stack.
pub fn main(tables: fn() -> Vec<Table>) -> ! {
    let t = std::thread::Builder::new().stack_size(1 << 30).spawn(move || crate::sup::main(&E2e::new(tables()))).unwrap();
    let _ = t.join();
    std::process::exit(3)
}
