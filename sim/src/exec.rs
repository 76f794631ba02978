//! Execution of simulated programs by the real library. Every combinator node of a program is
//! evaluated by the real, monomorphic combinator type; its children are type-erased `Hole`s that
//! hand control back to the simulator, which logs the event and dispatches the child.
use crate::model::{join, Ev, PairM, Report, StackV, Tree, BUDGET};
use crate::prog::*;
use pest3::choice::*;
use pest3::sequence::*;
use pest3::token::Pair;
use pest3::typed::unicode;
use pest3::typed::template::*;
use pest3::typed::wrapper::String as StrWrapper;
use pest3::typed::{EmptyPairContainer, NeverFailedTypedNode, PairContainer, PairTree, Tracker, TypedNode, TypedParser};
use pest3::{Position, Span, Stack};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[allow(dead_code, unused)]
pub mod gram {
    #[derive(pest3::Parser)]
    #[grammar_inline = r#"
r0(x) = x
r1(x) = x
r2(x) = x
r3(x) = x
r4(x) = x
"#]
    pub struct P;
}
pub use gram::rules;
pub use gram::Rule;

pest3_core::choice_type! {
    Choice17,
    (V0, T0, choice_0), (V1, T1, choice_1), (V2, T2, choice_2), (V3, T3, choice_3), (V4, T4, choice_4),
    (V5, T5, choice_5), (V6, T6, choice_6), (V7, T7, choice_7), (V8, T8, choice_8), (V9, T9, choice_9),
    (V10, T10, choice_10), (V11, T11, choice_11), (V12, T12, choice_12), (V13, T13, choice_13),
    (V14, T14, choice_14), (V15, T15, choice_15), (V16, T16, choice_16),
}
pest3_core::sequence_type! {
    Sequence17,
    (f0, T0, R0), (f1, T1, R1), (f2, T2, R2), (f3, T3, R3), (f4, T4, R4), (f5, T5, R5), (f6, T6, R6),
    (f7, T7, R7), (f8, T8, R8), (f9, T9, R9), (f10, T10, R10), (f11, T11, R11), (f12, T12, R12),
    (f13, T13, R13), (f14, T14, R14), (f15, T15, R15), (f16, T16, R16),
}

macro_rules! strs {
    ($($n:ident = $i:literal),*) => { $(
        #[derive(Clone, Debug, PartialEq, Eq, Hash)]
        pub struct $n;
        impl StrWrapper for $n { const CONTENT: &'static str = STRS[$i]; }
    )* };
}
strs!(S0 = 0, S1 = 1, S2 = 2, S3 = 3, S4 = 4, S5 = 5, S6 = 6, S7 = 7, S8 = 8, S9 = 9, S10 = 10, S11 = 11);

/// Panic payload used to stop a run that exceeds every bound.
pub struct Runaway;
/// Panic payload of an injected sub-parser panic.
pub struct Injected;

pub type Hook = Rc<dyn Fn(u64)>;
pub type Guest = Rc<dyn Fn()>;

pub struct Ctx {
    case: Rc<Case>,
    bounds: Rc<Vec<usize>>,
    frames: Vec<usize>,
    depth: Vec<usize>,
    entries: u64,
    sim_calls: u64,
    hard: u64,
    log: Vec<Ev>,
    hook: Option<Hook>,
    guests: Vec<Guest>,
    pub misuse: Option<String>,
}

thread_local! {
    static CTX: RefCell<Vec<Ctx>> = const { RefCell::new(Vec::new()) };
}

fn with<T>(f: impl FnOnce(&mut Ctx) -> T) -> T {
    CTX.with(|c| f(c.borrow_mut().last_mut().expect("no simulation context")))
}

pub trait Val {
    fn tree(&self) -> Tree;
    fn each(&self, f: &mut dyn FnMut(Pair<Rule>));
    fn children(&self) -> Vec<Pair<Rule>>;
}
pub trait Describe {
    fn desc(&self) -> Tree;
}
struct W<T>(T);
impl<T: Describe + PairContainer<Rule>> Val for W<T> {
    fn tree(&self) -> Tree {
        self.0.desc()
    }
    fn each(&self, f: &mut dyn FnMut(Pair<Rule>)) {
        self.0.for_self_or_for_each_child_pair(&mut |p| f(p))
    }
    fn children(&self) -> Vec<Pair<Rule>> {
        self.0.vec_children_pairs()
    }
}

/// Type-erased sub-parser number `K` of the combinator being evaluated; `TRIVIA + i` is trivia `i`.
#[derive(Clone)]
pub struct Hole<'i, const K: usize> {
    v: Option<Rc<dyn Val + 'i>>,
}
pub const TRIVIA: usize = 100;

impl<'i, const K: usize> std::fmt::Debug for Hole<'i, K> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Hole")
    }
}
impl<'i, const K: usize> PartialEq for Hole<'i, K> {
    fn eq(&self, o: &Self) -> bool {
        self.desc() == o.desc()
    }
}
impl<'i, const K: usize> Eq for Hole<'i, K> {}
impl<'i, const K: usize> Default for Hole<'i, K> {
    fn default() -> Self {
        Hole { v: None }
    }
}
impl<'i, const K: usize> Describe for Hole<'i, K> {
    fn desc(&self) -> Tree {
        match &self.v {
            Some(v) => v.tree(),
            None => Tree::leaf("?"),
        }
    }
}
impl<'i, const K: usize> PairContainer<Rule> for Hole<'i, K> {
    fn for_self_or_for_each_child_pair(&self, f: &mut impl FnMut(Pair<Rule>)) {
        if let Some(v) = &self.v {
            v.each(&mut |p| f(p))
        }
    }
    fn for_each_child_pair(&self, f: &mut impl FnMut(Pair<Rule>)) {
        if let Some(v) = &self.v {
            for p in v.children() {
                f(p)
            }
        }
    }
}
fn child(k: usize) -> usize {
    with(|c| {
        let node = &c.case.nodes[*c.frames.last().unwrap()];
        if k >= TRIVIA {
            let i = k - TRIVIA;
            if node.kind == Kind::Seq && i == 0 {
                c.misuse = Some("leading trivia of a sequence was evaluated".into());
            }
            node.trivia[i]
        } else {
            node.kids[k]
        }
    })
}
impl<'i, const K: usize> TypedNode<'i, Rule> for Hole<'i, K> {
    fn try_parse_with_partial(input: Position<'i>, stack: &mut Stack<Span<'i>>, tracker: &mut Tracker<'i, Rule>) -> Option<(Position<'i>, Self)> {
        run_node(child(K), Mode::Parse, input, stack, tracker).map(|(p, v)| (p, Hole { v }))
    }
    fn check_with_partial(input: Position<'i>, stack: &mut Stack<Span<'i>>, tracker: &mut Tracker<'i, Rule>) -> Option<Position<'i>> {
        run_node(child(K), Mode::Check, input, stack, tracker).map(|(p, _)| p)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Parse,
    Check,
}

pub fn stack_vec(stack: &Stack<Span<'_>>) -> StackV {
    stack[0..stack.len()].iter().map(|s| (s.start() as u32, s.end() as u32)).collect()
}

type Ret<'i> = Option<(Position<'i>, Option<Rc<dyn Val + 'i>>)>;

fn go<'i, T: TypedNode<'i, Rule> + Describe + PairContainer<Rule> + 'i>(mode: Mode, input: Position<'i>, stack: &mut Stack<Span<'i>>, tracker: &mut Tracker<'i, Rule>) -> Ret<'i> {
    match mode {
        Mode::Parse => T::try_parse_with_partial(input, stack, tracker).map(|(p, v)| (p, Some(Rc::new(W(v)) as Rc<dyn Val + 'i>))),
        Mode::Check => T::check_with_partial(input, stack, tracker).map(|p| (p, None)),
    }
}

pub struct SimVal(String);
impl EmptyPairContainer for SimVal {}
impl Describe for SimVal {
    fn desc(&self) -> Tree {
        Tree::leaf(self.0.clone())
    }
}

fn run_node<'i>(id: usize, mode: Mode, input: Position<'i>, stack: &mut Stack<Span<'i>>, tracker: &mut Tracker<'i, Rule>) -> Ret<'i> {
    let hook = with(|c| {
        c.entries += 1;
        c.hook.clone()
    });
    if let Some(h) = hook {
        let n = with(|c| c.entries);
        h(n);
    }
    let (refuse, kind) = with(|c| {
        if c.entries > c.hard {
            std::panic::panic_any(Runaway);
        }
        let refuse = c.entries > BUDGET || c.entries > c.case.plan.cancel_at;
        if !refuse {
            c.log.push(Ev::Enter { node: id as u32, pos: input.pos() as u32, stack: stack_vec(stack) });
        }
        (refuse, c.case.nodes[id].kind.clone())
    });
    if refuse {
        return None;
    }
    let r = match kind {
        Kind::Sim(leaf) => sim(leaf, mode, input, stack, tracker),
        Kind::Ref(t) => {
            let ok = with(|c| {
                if c.depth[id] >= c.case.depth_limit {
                    false
                } else {
                    c.depth[id] += 1;
                    true
                }
            });
            if ok {
                let r = run_node(t, mode, input, stack, tracker);
                with(|c| c.depth[id] -= 1);
                r
            } else {
                None
            }
        }
        Kind::Progress => {
            let k = with(|c| c.case.nodes[id].kids[0]);
            match run_node(k, mode, input, stack, tracker) {
                Some((p, v)) if p.pos() > input.pos() => Some((p, v)),
                _ => None,
            }
        }
        kind => {
            with(|c| c.frames.push(id));
            let r = dispatch(&kind, id, mode, input, stack, tracker);
            with(|c| c.frames.pop());
            r
        }
    };
    with(|c| {
        c.log.push(match &r {
            Some((p, _)) => Ev::Exit { node: id as u32, pos: p.pos() as u32, stack: stack_vec(stack) },
            None => Ev::Exit { node: id as u32, pos: u32::MAX, stack: vec![] },
        })
    });
    r
}

fn apply<'i>(ops: &[Op], input: &Position<'i>, text: &'i str, stack: &mut Stack<Span<'i>>) {
    let _ = input;
    for op in ops {
        match op {
            Op::Push(a, b) => {
                let (a, b) = with(|c| {
                    let n = c.bounds.len() - 1;
                    let (a, b) = ((*a).min(n), (*b).min(n));
                    (c.bounds[a], c.bounds[b.max(a)])
                });
                stack.push(Span::new(text, a, b).expect("span of simulated push"));
            }
            Op::Pop => {
                stack.pop();
            }
        }
    }
}

/// The whole text a position belongs to, through the public API only.
pub fn text_of<'i>(p: &Position<'i>) -> &'i str {
    p.span(p).get_input()
}

fn sim<'i>(leaf: usize, mode: Mode, input: Position<'i>, stack: &mut Stack<Span<'i>>, tracker: &mut Tracker<'i, Rule>) -> Ret<'i> {
    let out = with(|c| {
        let call = c.sim_calls;
        c.sim_calls += 1;
        if let Some(x) = c.case.plan.transient.iter().find(|x| x.0 == call) {
            return Some(x.1.clone());
        }
        let idx = c.bounds.iter().position(|x| *x == input.pos())?;
        c.case.plan.leaves[leaf].get(idx).cloned()
    })?;
    let text = text_of(&input);
    let done = |p: Position<'i>| {
        let v = match mode {
            Mode::Parse => Some(Rc::new(W(SimVal(format!("sim{leaf}:{}..{}", input.pos(), p.pos())))) as Rc<dyn Val + 'i>),
            Mode::Check => None,
        };
        Some((p, v))
    };
    match out {
        Out::Match(n, ops) => {
            let mut p = input.pos();
            let mut it = text[p..].chars();
            for _ in 0..n {
                p += it.next()?.len_utf8();
            }
            apply(&ops, &input, text, stack);
            done(Position::new(text, p).expect("position of simulated match"))
        }
        Out::Fail(ops) => {
            apply(&ops, &input, text, stack);
            None
        }
        Out::Special(k) => {
            match k {
                0 => tracker.empty_stack(input),
                1 => tracker.repeat_too_many_times(input),
                _ => tracker.out_of_bound(input, 5, Some(-7)),
            }
            None
        }
        Out::Panic => std::panic::panic_any(Injected),
        Out::Nested(g) => {
            let guest = with(|c| c.guests.get(g).cloned());
            if let Some(g) = guest {
                g();
            }
            done(input)
        }
    }
}

macro_rules! leaf_desc {
    ($([$($g:tt)*] $t:ty, $s:ident => $e:expr;)*) => { $(
        impl<$($g)*> Describe for $t { fn desc(&self) -> Tree { let $s = self; Tree::leaf($e) } }
    )* };
}
leaf_desc! {
    [T: StrWrapper + 'static] Str<T>, s => format!("str:{:?}", s.get_const());
    ['i, T: StrWrapper] Insens<'i, T>, s => format!("insens:{:?}:{:?}", s.get_const(), s.content);
    [const A: char, const B: char] CharRange<A, B>, s => format!("range:{:?}", s.content);
    [const A: char] Char<A>, _s => format!("char:{:?}", A);
    [] any, s => format!("any:{:?}", s.content);
    ['i, const N: usize] SkipChar<'i, N>, s => format!("skip:{}..{}", s.span.start(), s.span.end());
    [] NONE, _s => "never";
    [] Empty, _s => "empty";
    [] soi, _s => "soi";
    [] eoi, _s => "eoi";
    [] newline, s => match s.content { NewLineType::CRLF => "crlf", NewLineType::LF => "lf", NewLineType::CR => "cr" };
    ['i] peek<'i>, s => format!("peek:{}..{}", s.span.start(), s.span.end());
    ['i] peek_all<'i>, s => format!("peekall:{}..{}", s.span.start(), s.span.end());
    ['i] pop<'i>, s => format!("pop:{:?}", s.span.as_str());
    ['i] pop_all<'i>, s => format!("popall:{}..{}", s.span.start(), s.span.end());
    [] drop, _s => "drop";
    [const A: isize] PeekSlice1<A>, _s => "slice";
    [const A: isize, const B: isize] PeekSlice2<A, B>, _s => "slice";
    [T] Negative<T>, _s => "neg";
}
impl<T: Describe> Describe for Positive<T> {
    fn desc(&self) -> Tree {
        Tree::node("pos", vec![(**self).desc()])
    }
}
impl<T: Describe> Describe for push<T> {
    fn desc(&self) -> Tree {
        Tree::node("push", vec![(**self).desc()])
    }
}
impl<T: Describe> Describe for Option<T> {
    fn desc(&self) -> Tree {
        match self {
            Some(x) => Tree::node("some", vec![x.desc()]),
            None => Tree::leaf("none"),
        }
    }
}
impl<T: Describe, TR, const A: usize, const B: usize> Describe for RepMinMax<T, TR, A, B> {
    fn desc(&self) -> Tree {
        let v: Vec<Tree> = self.iter().map(|x| x.desc()).collect();
        if v.len() != self.content.len() {
            return Tree::leaf("repetition iterator disagrees with its content");
        }
        Tree::node("rep", v)
    }
}
/// A character class: the matched character, whatever nesting the library uses inside.
struct Class<T>(T);
trait ClassChar {
    fn ch(&self) -> char;
}
impl<const A: char, const B: char> ClassChar for CharRange<A, B> {
    fn ch(&self) -> char {
        self.content
    }
}
macro_rules! unicode_char {
    ($($n:ident)*) => { $( impl ClassChar for unicode::$n {
        fn ch(&self) -> char {
            self.content
        }
    } )* };
}
unicode_char! { ALPHABETIC WHITE_SPACE UPPERCASE HAN NUMBER }
impl<A: ClassChar, B: ClassChar> ClassChar for Choice2<A, B> {
    fn ch(&self) -> char {
        self.choice_0().map(|x| x.ch()).or_else(|| self.choice_1().map(|x| x.ch())).unwrap()
    }
}
impl<A: ClassChar, B: ClassChar, C: ClassChar> ClassChar for Choice3<A, B, C> {
    fn ch(&self) -> char {
        self.choice_0().map(|x| x.ch()).or_else(|| self.choice_1().map(|x| x.ch())).or_else(|| self.choice_2().map(|x| x.ch())).unwrap()
    }
}
impl<T: ClassChar> Describe for Class<T> {
    fn desc(&self) -> Tree {
        Tree::leaf(format!("class:{:?}", self.0.ch()))
    }
}
impl<T> EmptyPairContainer for Class<T> {}
impl<'i, T: TypedNode<'i, Rule>> TypedNode<'i, Rule> for Class<T> {
    fn try_parse_with_partial(input: Position<'i>, stack: &mut Stack<Span<'i>>, tracker: &mut Tracker<'i, Rule>) -> Option<(Position<'i>, Self)> {
        T::try_parse_with_partial(input, stack, tracker).map(|(p, v)| (p, Class(v)))
    }
    fn check_with_partial(input: Position<'i>, stack: &mut Stack<Span<'i>>, tracker: &mut Tracker<'i, Rule>) -> Option<Position<'i>> {
        T::check_with_partial(input, stack, tracker)
    }
}

macro_rules! comb_desc {
    ($($c:ident $s:ident [$($t:ident $r:ident $g:ident $k:literal),*])*) => { $(
        impl<$($t: Describe),*> Describe for $c<$($t),*> {
            fn desc(&self) -> Tree {
                let mut found = vec![];
                $( if let Some(x) = self.$g() { found.push(Tree::node(concat!("choice", $k), vec![x.desc()])); } )*
                if found.len() == 1 { found.pop().unwrap() } else { Tree::node("choice with several variants", found) }
            }
        }
        impl<$($t: Describe, $r),*> Describe for $s<$($t, $r),*> {
            fn desc(&self) -> Tree {
                let ($($g,)*) = self.as_tuple();
                Tree::node("seq", vec![$($g.desc()),*])
            }
        }
    )* };
}
comb_desc! {
    Choice2 Sequence2 [T0 R0 choice_0 0, T1 R1 choice_1 1]
    Choice3 Sequence3 [T0 R0 choice_0 0, T1 R1 choice_1 1, T2 R2 choice_2 2]
    Choice4 Sequence4 [T0 R0 choice_0 0, T1 R1 choice_1 1, T2 R2 choice_2 2, T3 R3 choice_3 3]
    Choice5 Sequence5 [T0 R0 choice_0 0, T1 R1 choice_1 1, T2 R2 choice_2 2, T3 R3 choice_3 3, T4 R4 choice_4 4]
    Choice6 Sequence6 [T0 R0 choice_0 0, T1 R1 choice_1 1, T2 R2 choice_2 2, T3 R3 choice_3 3, T4 R4 choice_4 4, T5 R5 choice_5 5]
    Choice7 Sequence7 [T0 R0 choice_0 0, T1 R1 choice_1 1, T2 R2 choice_2 2, T3 R3 choice_3 3, T4 R4 choice_4 4, T5 R5 choice_5 5, T6 R6 choice_6 6]
    Choice8 Sequence8 [T0 R0 choice_0 0, T1 R1 choice_1 1, T2 R2 choice_2 2, T3 R3 choice_3 3, T4 R4 choice_4 4, T5 R5 choice_5 5, T6 R6 choice_6 6, T7 R7 choice_7 7]
    Choice9 Sequence9 [T0 R0 choice_0 0, T1 R1 choice_1 1, T2 R2 choice_2 2, T3 R3 choice_3 3, T4 R4 choice_4 4, T5 R5 choice_5 5, T6 R6 choice_6 6, T7 R7 choice_7 7, T8 R8 choice_8 8]
    Choice10 Sequence10 [T0 R0 choice_0 0, T1 R1 choice_1 1, T2 R2 choice_2 2, T3 R3 choice_3 3, T4 R4 choice_4 4, T5 R5 choice_5 5, T6 R6 choice_6 6, T7 R7 choice_7 7, T8 R8 choice_8 8, T9 R9 choice_9 9]
    Choice11 Sequence11 [T0 R0 choice_0 0, T1 R1 choice_1 1, T2 R2 choice_2 2, T3 R3 choice_3 3, T4 R4 choice_4 4, T5 R5 choice_5 5, T6 R6 choice_6 6, T7 R7 choice_7 7, T8 R8 choice_8 8, T9 R9 choice_9 9, T10 R10 choice_10 10]
    Choice12 Sequence12 [T0 R0 choice_0 0, T1 R1 choice_1 1, T2 R2 choice_2 2, T3 R3 choice_3 3, T4 R4 choice_4 4, T5 R5 choice_5 5, T6 R6 choice_6 6, T7 R7 choice_7 7, T8 R8 choice_8 8, T9 R9 choice_9 9, T10 R10 choice_10 10, T11 R11 choice_11 11]
    Choice13 Sequence13 [T0 R0 choice_0 0, T1 R1 choice_1 1, T2 R2 choice_2 2, T3 R3 choice_3 3, T4 R4 choice_4 4, T5 R5 choice_5 5, T6 R6 choice_6 6, T7 R7 choice_7 7, T8 R8 choice_8 8, T9 R9 choice_9 9, T10 R10 choice_10 10, T11 R11 choice_11 11, T12 R12 choice_12 12]
    Choice14 Sequence14 [T0 R0 choice_0 0, T1 R1 choice_1 1, T2 R2 choice_2 2, T3 R3 choice_3 3, T4 R4 choice_4 4, T5 R5 choice_5 5, T6 R6 choice_6 6, T7 R7 choice_7 7, T8 R8 choice_8 8, T9 R9 choice_9 9, T10 R10 choice_10 10, T11 R11 choice_11 11, T12 R12 choice_12 12, T13 R13 choice_13 13]
    Choice15 Sequence15 [T0 R0 choice_0 0, T1 R1 choice_1 1, T2 R2 choice_2 2, T3 R3 choice_3 3, T4 R4 choice_4 4, T5 R5 choice_5 5, T6 R6 choice_6 6, T7 R7 choice_7 7, T8 R8 choice_8 8, T9 R9 choice_9 9, T10 R10 choice_10 10, T11 R11 choice_11 11, T12 R12 choice_12 12, T13 R13 choice_13 13, T14 R14 choice_14 14]
    Choice16 Sequence16 [T0 R0 choice_0 0, T1 R1 choice_1 1, T2 R2 choice_2 2, T3 R3 choice_3 3, T4 R4 choice_4 4, T5 R5 choice_5 5, T6 R6 choice_6 6, T7 R7 choice_7 7, T8 R8 choice_8 8, T9 R9 choice_9 9, T10 R10 choice_10 10, T11 R11 choice_11 11, T12 R12 choice_12 12, T13 R13 choice_13 13, T14 R14 choice_14 14, T15 R15 choice_15 15]
    Choice17 Sequence17 [T0 R0 choice_0 0, T1 R1 choice_1 1, T2 R2 choice_2 2, T3 R3 choice_3 3, T4 R4 choice_4 4, T5 R5 choice_5 5, T6 R6 choice_6 6, T7 R7 choice_7 7, T8 R8 choice_8 8, T9 R9 choice_9 9, T10 R10 choice_10 10, T11 R11 choice_11 11, T12 R12 choice_12 12, T13 R13 choice_13 13, T14 R14 choice_14 14, T15 R15 choice_15 15, T16 R16 choice_16 16]
}
macro_rules! rule_desc {
    ($($r:ident),*) => { $(
        impl<'i, T: Describe> Describe for rules::$r<'i, T> {
            fn desc(&self) -> Tree {
                Tree::node(format!("{}[{}..{}]", stringify!($r), self.span.start(), self.span.end()), vec![self.content.desc()])
            }
        }
    )* };
}
rule_desc!(r0, r1, r2, r3, r4);

fn dispatch<'i>(kind: &Kind, id: usize, mode: Mode, input: Position<'i>, stack: &mut Stack<Span<'i>>, tracker: &mut Tracker<'i, Rule>) -> Ret<'i> {
    macro_rules! g {
        ($t:ty) => {
            go::<$t>(mode, input, stack, tracker)
        };
    }
    macro_rules! by_index {
        ($i:expr; $($n:literal => $t:ty),* $(,)?) => { match $i { $( $n => g!($t), )* _ => unreachable!() } };
    }
    macro_rules! comb {
        ($n:expr, $which:ident; $($a:literal: $c:ident $s:ident [$($k:literal),*])*) => {
            match $n { $( $a => comb!(@ $which $c $s [$($k),*]), )* n => unreachable!("arity {n}") }
        };
        (@ choice $c:ident $s:ident [$($k:literal),*]) => { g!($c<$(Hole<'i, $k>),*>) };
        (@ seq $c:ident $s:ident [$($k:literal),*]) => { g!($s<$(Hole<'i, $k>, Hole<'i, {TRIVIA + $k}>),*>) };
    }
    macro_rules! all {
        ($n:expr, $which:ident) => {
            comb!($n, $which;
                2: Choice2 Sequence2 [0, 1]
                3: Choice3 Sequence3 [0, 1, 2]
                4: Choice4 Sequence4 [0, 1, 2, 3]
                5: Choice5 Sequence5 [0, 1, 2, 3, 4]
                6: Choice6 Sequence6 [0, 1, 2, 3, 4, 5]
                7: Choice7 Sequence7 [0, 1, 2, 3, 4, 5, 6]
                8: Choice8 Sequence8 [0, 1, 2, 3, 4, 5, 6, 7]
                9: Choice9 Sequence9 [0, 1, 2, 3, 4, 5, 6, 7, 8]
                10: Choice10 Sequence10 [0, 1, 2, 3, 4, 5, 6, 7, 8, 9]
                11: Choice11 Sequence11 [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]
                12: Choice12 Sequence12 [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]
                13: Choice13 Sequence13 [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]
                14: Choice14 Sequence14 [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13]
                15: Choice15 Sequence15 [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14]
                16: Choice16 Sequence16 [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]
                17: Choice17 Sequence17 [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]
            )
        };
    }
    type H<'i> = Hole<'i, 0>;
    type T<'i> = Hole<'i, TRIVIA>;
    match kind {
        Kind::Str(i) => by_index!(*i; 0 => Str<S0>, 1 => Str<S1>, 2 => Str<S2>, 3 => Str<S3>, 4 => Str<S4>, 5 => Str<S5>,
            6 => Str<S6>, 7 => Str<S7>, 8 => Str<S8>, 9 => Str<S9>, 10 => Str<S10>, 11 => Str<S11>),
        Kind::Insens(i) => by_index!(*i; 0 => Insens<'i, S0>, 1 => Insens<'i, S1>, 2 => Insens<'i, S2>, 3 => Insens<'i, S3>,
            4 => Insens<'i, S4>, 5 => Insens<'i, S5>, 6 => Insens<'i, S6>, 7 => Insens<'i, S7>, 8 => Insens<'i, S8>,
            9 => Insens<'i, S9>, 10 => Insens<'i, S10>, 11 => Insens<'i, S11>),
        Kind::Range(i) => by_index!(*i; 0 => CharRange<{RANGES[0].0}, {RANGES[0].1}>, 1 => CharRange<{RANGES[1].0}, {RANGES[1].1}>,
            2 => CharRange<{RANGES[2].0}, {RANGES[2].1}>, 3 => CharRange<{RANGES[3].0}, {RANGES[3].1}>, 4 => CharRange<{RANGES[4].0}, {RANGES[4].1}>),
        Kind::Char(i) => by_index!(*i; 0 => Char<{CHARS[0]}>, 1 => Char<{CHARS[1]}>, 2 => Char<{CHARS[2]}>, 3 => Char<{CHARS[3]}>),
        Kind::Class(i) => by_index!(*i; 0 => Class<ascii_digit>, 1 => Class<ascii_nonzero_digit>, 2 => Class<ascii_bin_digit>,
            3 => Class<ascii_oct_digit>, 4 => Class<ascii_hex_digit>, 5 => Class<ascii_alpha_lower>, 6 => Class<ascii_alpha>,
            7 => Class<ascii_alphanumeric>, 8 => Class<ascii>, 9 => Class<ascii_alpha_upper>, 10 => Class<unicode::ALPHABETIC>,
            11 => Class<unicode::WHITE_SPACE>, 12 => Class<unicode::UPPERCASE>, 13 => Class<unicode::HAN>, 14 => Class<unicode::NUMBER>),
        Kind::Any => g!(any),
        Kind::Skip(i) => by_index!(*i; 0 => SkipChar<'i, {SKIPS[0]}>, 1 => SkipChar<'i, {SKIPS[1]}>, 2 => SkipChar<'i, {SKIPS[2]}>, 3 => SkipChar<'i, {SKIPS[3]}>),
        Kind::Never => g!(NONE),
        Kind::Empty => g!(Empty),
        Kind::Soi => g!(soi),
        Kind::Eoi => g!(eoi),
        Kind::Newline => g!(newline),
        Kind::Peek => g!(peek<'i>),
        Kind::PeekAll => g!(peek_all<'i>),
        Kind::Pop => g!(pop<'i>),
        Kind::PopAll => g!(pop_all<'i>),
        Kind::Drop => g!(drop),
        Kind::Slice1(i) => by_index!(*i; 0 => PeekSlice1<{SLICE1[0]}>, 1 => PeekSlice1<{SLICE1[1]}>, 2 => PeekSlice1<{SLICE1[2]}>,
            3 => PeekSlice1<{SLICE1[3]}>, 4 => PeekSlice1<{SLICE1[4]}>, 5 => PeekSlice1<{SLICE1[5]}>,
            6 => PeekSlice1<{SLICE1[6]}>, 7 => PeekSlice1<{SLICE1[7]}>),
        Kind::Slice2(i) => by_index!(*i; 0 => PeekSlice2<{SLICE2[0].0}, {SLICE2[0].1}>, 1 => PeekSlice2<{SLICE2[1].0}, {SLICE2[1].1}>,
            2 => PeekSlice2<{SLICE2[2].0}, {SLICE2[2].1}>, 3 => PeekSlice2<{SLICE2[3].0}, {SLICE2[3].1}>,
            4 => PeekSlice2<{SLICE2[4].0}, {SLICE2[4].1}>, 5 => PeekSlice2<{SLICE2[5].0}, {SLICE2[5].1}>,
            6 => PeekSlice2<{SLICE2[6].0}, {SLICE2[6].1}>, 7 => PeekSlice2<{SLICE2[7].0}, {SLICE2[7].1}>, 8 => PeekSlice2<{SLICE2[8].0}, {SLICE2[8].1}>,
            9 => PeekSlice2<{SLICE2[9].0}, {SLICE2[9].1}>, 10 => PeekSlice2<{SLICE2[10].0}, {SLICE2[10].1}>,
            11 => PeekSlice2<{SLICE2[11].0}, {SLICE2[11].1}>, 12 => PeekSlice2<{SLICE2[12].0}, {SLICE2[12].1}>),
        Kind::Push => g!(push<H<'i>>),
        Kind::Pos => g!(Positive<H<'i>>),
        Kind::Neg => g!(Negative<H<'i>>),
        Kind::Opt => g!(Option<H<'i>>),
        Kind::Rep(i) => by_index!(*i;
            0 => Rep<H<'i>, T<'i>>, 1 => RepOnce<H<'i>, T<'i>>, 2 => RepMin<H<'i>, T<'i>, 2>, 3 => RepMin<H<'i>, T<'i>, 3>,
            4 => RepMax<H<'i>, T<'i>, 0>, 5 => RepMax<H<'i>, T<'i>, 1>, 6 => RepMax<H<'i>, T<'i>, 2>, 7 => RepMinMax<H<'i>, T<'i>, 0, 3>,
            8 => RepMinMax<H<'i>, T<'i>, 1, 1>, 9 => RepMinMax<H<'i>, T<'i>, 1, 2>, 10 => RepMinMax<H<'i>, T<'i>, 2, 2>,
            11 => RepMinMax<H<'i>, T<'i>, 2, 3>, 12 => RepMinMax<H<'i>, T<'i>, 1, 4>),
        Kind::Rule(i) => by_index!(*i; 0 => rules::r0<'i, H<'i>>, 1 => rules::r1<'i, H<'i>>, 2 => rules::r2<'i, H<'i>>,
            3 => rules::r3<'i, H<'i>>, 4 => rules::r4<'i, H<'i>>),
        Kind::Choice => {
            let n = with(|c| c.case.nodes[id].kids.len());
            all!(n, choice)
        }
        Kind::Seq => {
            let n = with(|c| c.case.nodes[id].kids.len());
            all!(n, seq)
        }
        Kind::Progress | Kind::Sim(_) | Kind::Ref(_) => unreachable!(),
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ErrInfo {
    Report(Report),
    /// message lines (normalised), location
    Message { first: String, rest: BTreeSet<String>, pos: usize, line_col: (usize, usize) },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Real {
    /// End position (None for whole-input from-string calls), tree, pairs.
    pub ok: Option<(Option<usize>, Option<Tree>, Option<Vec<PairM>>)>,
    pub err: Option<ErrInfo>,
    /// Stack right after the call (caller-supplied stack only).
    pub stack: Option<StackV>,
    /// Stack after the enclosing attempt made by the harness was rolled back.
    pub rolled_back: Option<StackV>,
    pub log: Vec<Ev>,
    pub entries: u64,
    pub misuse: Option<String>,
    /// "runaway", "injected" or the message of an unexpected panic.
    pub panicked: Option<String>,
    pub pair_note: Option<String>,
}

pub fn conv_pair<R: std::fmt::Debug>(p: &Pair<R>) -> PairM {
    PairM { rule: format!("{:?}", p.rule), start: p.start, end: p.end, kids: p.children.iter().map(conv_pair).collect() }
}

fn norm_list(s: &str) -> String {
    // Sort the names inside every bracketed list.
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('[') {
        let Some(j) = rest[i..].find(']') else { break };
        let mut names: Vec<&str> = rest[i + 1..i + j].split(", ").collect();
        names.sort();
        out.push_str(&rest[..i]);
        out.push('[');
        out.push_str(&names.join(", "));
        out.push(']');
        rest = &rest[i + j + 1..];
    }
    out.push_str(rest);
    out
}

pub fn message_info<R: pest3::RuleType>(e: &pest3::error::Error<R>) -> ErrInfo {
    use pest3::error::{ErrorVariant, InputLocation, LineColLocation};
    let msg = match &e.variant {
        ErrorVariant::CustomError { message } => message.clone(),
        v => format!("{v:?}"),
    };
    // Lines after the first are separated by newline + indentation; the first may itself contain
    // the text of the input line, which never contains a newline.
    let (first, tail) = match msg.find("^---") {
        Some(i) => (msg[..i + 4].to_string(), msg[i + 4..].to_string()),
        None => (msg.clone(), String::new()),
    };
    let rest = tail.split('\n').map(|l| l.trim()).filter(|l| !l.is_empty()).map(norm_list).collect();
    let pos = match e.location {
        InputLocation::Pos(p) => p,
        InputLocation::Span((a, _)) => a,
    };
    let line_col = match e.line_col {
        LineColLocation::Pos(x) => x,
        LineColLocation::Span(x, _) => x,
    };
    ErrInfo::Message { first, rest, pos, line_col }
}

/// What the message must say, from the reference report.
pub fn expected_message(input: &str, r: &Report) -> ErrInfo {
    let ls = input[..r.pos].rfind('\n').map(|x| x + 1).unwrap_or(0);
    let line = 1 + input[..r.pos].matches('\n').count();
    let col = 1 + input[ls..r.pos].chars().count();
    let first = format!("{}^---", &input[ls..r.pos]);
    let mut rest = BTreeSet::new();
    let list = |s: &BTreeSet<String>| format!("[{}]", s.iter().cloned().collect::<Vec<_>>().join(", "));
    for (by, (e, u, s)) in &r.groups {
        let mut l = match (e.is_empty(), u.is_empty()) {
            (true, true) => "Unknown error (no rule tracked)".to_string(),
            (false, true) => format!("Expected {}", list(e)),
            (true, false) => format!("Unexpected {}", list(u)),
            (false, false) => format!("Unexpected {}, expected {}", list(u), list(e)),
        };
        if let Some(b) = by {
            l.push_str(&format!(", by {b}"));
        }
        l.push('.');
        rest.insert(norm_list(&l));
        for x in s {
            let mut l = x.clone();
            if let Some(b) = by {
                l.push_str(&format!(" (By {b})"));
            }
            rest.insert(l);
        }
    }
    ErrInfo::Message { first, rest, pos: r.pos, line_col: (line, col) }
}

struct PopCtx;
impl Drop for PopCtx {
    fn drop(&mut self) {
        CTX.with(|c| {
            let x = c.borrow_mut().pop();
            if let Some(x) = x {
                LAST.with(|l| *l.borrow_mut() = Some((x.log, x.misuse, x.entries)));
            }
        });
    }
}
thread_local! {
    static LAST: RefCell<Option<(Vec<Ev>, Option<String>, u64)>> = const { RefCell::new(None) };
}

type Root<'i> = Hole<'i, 0>;

/// Extra ways to call the library that must be equivalent.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Via {
    Node,
    Parser,
}

pub fn run(case: &Rc<Case>, mode: Mode, via: Via, hook: Option<Hook>, guests: Vec<Guest>, hard: u64) -> Real {
    // A synthetic base frame whose only child is the root of the program.
    let mut c2 = (**case).clone();
    c2.nodes.push(Node { kind: Kind::Opt, kids: vec![case.root], trivia: vec![] });
    let base = c2.nodes.len() - 1;
    let c2 = Rc::new(c2);
    let bounds = Rc::new(case.boundaries());
    CTX.with(|c| {
        c.borrow_mut().push(Ctx {
            depth: vec![0; c2.nodes.len()],
            case: c2.clone(),
            bounds: bounds.clone(),
            frames: vec![base],
            entries: 0,
            sim_calls: 0,
            hard,
            log: vec![],
            hook,
            guests,
            misuse: None,
        })
    });
    let mut real = Real {
        ok: None,
        err: None,
        stack: None,
        rolled_back: None,
        log: vec![],
        entries: 0,
        misuse: None,
        panicked: None,
        pair_note: None,
    };
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _pop = PopCtx;
        call(case, &bounds, mode, via, &mut real)
    }));
    let (log, misuse, entries) = LAST.with(|l| l.borrow_mut().take()).unwrap();
    real.log = log;
    real.misuse = misuse;
    real.entries = entries;
    if let Err(p) = res {
        real.panicked = Some(if p.is::<Runaway>() {
            "runaway".into()
        } else if p.is::<Injected>() {
            "injected".into()
        } else if let Some(s) = p.downcast_ref::<&str>() {
            format!("panic: {s}")
        } else if let Some(s) = p.downcast_ref::<String>() {
            format!("panic: {s}")
        } else {
            "panic".into()
        });
        real.ok = None;
        real.err = None;
    }
    real
}

fn value<'i>(v: &Root<'i>, real: &mut Real) -> (Option<Tree>, Option<Vec<PairM>>) {
    let tree = v.desc();
    let mut pairs = vec![];
    v.for_self_or_for_each_child_pair(&mut |p: Pair<Rule>| pairs.push(p));
    let mut again = vec![];
    v.for_self_or_for_each_child_pair(&mut |p: Pair<Rule>| again.push(p));
    if again != pairs {
        real.pair_note = Some("asking for the pairs twice gave different answers".into());
    }
    let copy = v.clone();
    let mut third = vec![];
    // Through other containers of the same node.
    Some(copy.clone()).for_each_child_pair(&mut |p: Pair<Rule>| third.push(p));
    if third != pairs {
        real.pair_note = Some("an optional around the node reports different pairs".into());
    }
    let pushed = push { content: copy };
    let fourth = pushed.vec_children_pairs();
    let kids = v.vec_children_pairs();
    if fourth != pairs {
        real.pair_note = Some("a stack push around the node reports different pairs".into());
    }
    for p in &pairs {
        let c = p.convert(&|r| r);
        if c != *p {
            real.pair_note = Some("converting a pair to the same rule type changed it".into());
        }
        if p.to_string() != conv_pair(p).show() {
            real.pair_note = Some("printed pair differs from its content".into());
        }
    }
    // A single pair at the top: its children are what the rule node lists.
    if pairs.len() == 1 && matches!(&tree.tag[..1], "r") && tree.tag.contains('[') {
        if pairs[0].children != kids {
            real.pair_note = Some("children of the pair differ from the children listed by the node".into());
        }
    }
    (Some(tree), Some(pairs.iter().map(conv_pair).collect()))
}

pub fn report_of<'i, R: pest3::typed::RuleType>(t: Tracker<'i, R>) -> Report {
    let (pos, attempts) = t.finish();
    let mut groups: BTreeMap<Option<String>, (BTreeSet<String>, BTreeSet<String>, BTreeSet<String>)> = BTreeMap::new();
    for (by, (e, u, s)) in attempts {
        let g = groups.entry(by.map(|x| format!("{x:?}"))).or_default();
        g.0.extend(e.iter().map(|x| format!("{x:?}")));
        g.1.extend(u.iter().map(|x| format!("{x:?}")));
        g.2.extend(s.iter().map(|x| x.to_string()));
    }
    Report { pos: pos.pos(), groups }
}

fn call(case: &Case, bounds: &[usize], mode: Mode, via: Via, real: &mut Real) {
    let text: &str = &case.input;
    let n = bounds.len() - 1;
    match case.api {
        Api::With | Api::WithWhole => {
            let input = Position::new(text, bounds[case.start.min(n)]).unwrap();
            let mut stack: Stack<Span<'_>> = Stack::new();
            for (a, b) in &case.stack {
                let (a, b) = ((*a).min(n), (*b).min(n));
                stack.push(Span::new(text, bounds[a], bounds[b.max(a)]).unwrap());
            }
            let mut tracker: Tracker<'_, Rule> = Tracker::new(input);
            // The harness is itself an enclosing attempt.
            stack.snapshot();
            let parser = via == Via::Parser;
            // End (unless the whole input is due) and tree and pairs (if it is parsed) of each step.
            let mut steps: Vec<Option<(Option<usize>, Option<Tree>, Option<Vec<PairM>>)>> = vec![];
            let mut at = input;
            for k in 0..=case.resumes() {
                let last = k == case.resumes();
                if !last {
                    stack.snapshot();
                }
                let (s, t) = (&mut stack, &mut tracker);
                let step = match (mode, last && case.api == Api::WithWhole) {
                    (Mode::Parse, false) => {
                        let r = if parser {
                            <gram::P as TypedParser<Rule>>::try_parse_with_partial::<Root<'_>>(at, s, t)
                        } else {
                            Root::try_parse_with_partial(at, s, t)
                        };
                        r.map(|(p, v)| {
                            at = p;
                            let (t, ps) = value(&v, real);
                            (Some(p.pos()), t, ps)
                        })
                    }
                    (Mode::Parse, true) => {
                        let r = if parser { <gram::P as TypedParser<Rule>>::try_parse_with::<Root<'_>>(at, s, t) } else { Root::try_parse_with(at, s, t) };
                        r.map(|v| {
                            let (t, ps) = value(&v, real);
                            (None, t, ps)
                        })
                    }
                    (Mode::Check, false) => Root::check_with_partial(at, s, t).map(|p| {
                        at = p;
                        (Some(p.pos()), None, None)
                    }),
                    (Mode::Check, true) => Root::check_with(at, s, t).then_some((None, None, None)),
                };
                if !last {
                    match &step {
                        Some(_) => stack.clear_snapshot(),
                        None => {
                            stack.restore();
                            at = match bounds.iter().find(|b| **b > at.pos()) {
                                Some(b) => Position::new(text, *b).unwrap(),
                                None => at,
                            };
                        }
                    }
                }
                steps.push(step);
            }
            if steps.len() == 1 {
                real.ok = steps.pop().unwrap();
            } else if let Some((end, ..)) = steps.last().unwrap() {
                let end = *end;
                let joined = join(steps.into_iter().map(|s| s.map(|(_, t, ps)| (0, t.unwrap_or(Tree::leaf("")), ps.unwrap_or_default()))).collect());
                let (_, t, ps) = joined.unwrap();
                let tree = mode == Mode::Parse;
                real.ok = Some((end, tree.then_some(t), tree.then_some(ps)));
            }
            real.stack = Some(stack_vec(&stack));
            stack.restore();
            real.rolled_back = Some(stack_vec(&stack));
            real.err = Some(ErrInfo::Report(report_of(tracker)));
        }
        Api::Partial => match mode {
            Mode::Parse => {
                let r = match via {
                    Via::Node => Root::try_parse_partial(text),
                    Via::Parser => <gram::P as TypedParser<Rule>>::try_parse_partial::<Root<'_>>(text),
                };
                match r {
                    Ok((p, v)) => {
                        let (t, ps) = value(&v, real);
                        real.ok = Some((Some(p.pos()), t, ps));
                    }
                    Err(e) => real.err = Some(message_info(&e)),
                }
            }
            Mode::Check => match Root::check_partial(text) {
                Ok(p) => real.ok = Some((Some(p.pos()), None, None)),
                Err(e) => real.err = Some(message_info(&e)),
            },
        },
        Api::Whole => match mode {
            Mode::Parse => {
                let r = match via {
                    Via::Node => Root::try_parse(text),
                    Via::Parser => <gram::P as TypedParser<Rule>>::try_parse::<Root<'_>>(text),
                };
                match r {
                    Ok(v) => {
                        let (t, ps) = value(&v, real);
                        real.ok = Some((None, t, ps));
                    }
                    Err(e) => real.err = Some(message_info(&e)),
                }
            }
            Mode::Check => match Root::check(text) {
                Ok(()) => real.ok = Some((None, None, None)),
                Err(e) => real.err = Some(message_info(&e)),
            },
        },
    }
}

/// `NeverFailedTypedNode::parse_partial` of an unbounded repetition of the program.
pub fn run_never_failing(case: &Rc<Case>, hard: u64) -> (Result<(usize, Tree), String>, Vec<Ev>) {
    let mut c2 = (**case).clone();
    let e = c2.nodes.len();
    c2.nodes.push(Node { kind: Kind::Empty, kids: vec![], trivia: vec![] });
    c2.nodes.push(Node { kind: Kind::Progress, kids: vec![case.root], trivia: vec![] });
    c2.nodes.push(Node { kind: Kind::Rep(0), kids: vec![e + 1], trivia: vec![e] });
    let c2 = Rc::new(c2);
    CTX.with(|c| {
        c.borrow_mut().push(Ctx {
            depth: vec![0; c2.nodes.len()],
            case: c2.clone(),
            bounds: Rc::new(case.boundaries()),
            frames: vec![e + 2],
            entries: 1,
            sim_calls: 0,
            hard,
            log: vec![],
            hook: None,
            guests: vec![],
            misuse: None,
        })
    });
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _pop = PopCtx;
        let (p, v) = <Rep<Hole<'_, 0>, Hole<'_, TRIVIA>> as NeverFailedTypedNode<'_, Rule>>::parse_partial(&case.input);
        (p.pos(), v.desc())
    }));
    let (log, _, _) = LAST.with(|l| l.borrow_mut().take()).unwrap();
    (res.map_err(|_| "panic".to_string()), log)
}

#[allow(unused)]
fn _pair_tree_is_public<'i>(r: &rules::r0<'i, Hole<'i, 0>>) -> Pair<Rule> {
    r.as_pair_tree()
}
