from seedlib import mk
T="core/src/typed/template/mod.rs"
R="core/src/typed/template/repetition.rs"
K="core/src/typed/tracker.rs"
HEAD='''use pest3_core::typed::{TypedNode as _, TypedParser as _};
use pest3::Parser;
#[derive(Parser)]
#[grammar_inline = r##"
%s
"##]
struct P;
fn main() {
%s
}
'''
def demo(g,b): return {"src/main.rs": HEAD%(g,b)}
# C01: the check variant of a negative lookahead keeps pushes of the attempt that failed half way
mk("P01-negative-check-leaks","C01",
 "a negative lookahead, run by a check-only call, whose body pushes and then fails, followed by an operation on the stack",
 "after `!(PUSH ~ fail)` in a check the pushed span stays on the stack",
 [(T,'''            match T::check_with_partial(input, stack, tracker) {
                Some(_) => {
                    stack.restore();
                    None
                }
                None => {
                    stack.restore();
                    Some(input)
                }
            }''','''            match T::check_with_partial(input, stack, tracker) {
                Some(_) => {
                    stack.restore();
                    None
                }
                None => {
                    // Nothing was matched, so there is nothing to take back.
                    stack.clear_snapshot();
                    Some(input)
                }
            }''')],
 demo('''main = pest::stack::push("a") - !(pest::stack::push("b") - "c") - "b" - pest::stack::pop''',
 '''    assert!(P::try_parse::<rules::main>("aba").is_ok());
    assert!(rules::main::check("aba").is_ok());
    assert!(rules::main::check("abb").is_err());'''))
mk("P02-restore-skips-empty","C01",
 "a repetition whose body starts on an empty stack, pushes and then fails, followed by a stack operation",
 "an abandoned iteration of a repetition leaves its pushes on a stack that was empty before",
 [(T,'''    stack.snapshot();
    let res = f(stack);
    match res {''','''    if stack.is_empty() {
        // No span to save.
        return f(stack);
    }
    stack.snapshot();
    let res = f(stack);
    match res {''')],
 demo('''item = pest::stack::push("a") - "b"
main = item* - "a" - pest::stack::pop?''',
 '''    let m = P::try_parse_partial::<rules::main>("aa").unwrap();
    assert_eq!(m.0.pos(), 1);'''))
mk("P03-rep-probes-past-max","C07",
 "a bounded repetition that reaches its upper bound while more input follows",
 "the body is attempted once more than the upper bound allows",
 [(R,'''        Some((
            input,
            Self {
                content: vec,
                __trivia: Phantom::default(),
            },
        ))''','''        // Tell the user when there is one more than allowed.
        if vec.len() == MAX && MAX > 0 {
            let more = {
                stack.snapshot();
                let res = check_unit::<R, T, TRIVIA>(input, stack, tracker, MAX);
                stack.restore();
                res
            };
            if more.is_some() {
                tracker.repeat_too_many_times(input);
            }
        }

        Some((
            input,
            Self {
                content: vec,
                __trivia: Phantom::default(),
            },
        ))''')],
 {"src/main.rs":'''use pest3_core::{typed::{TypedNode, Tracker, RuleType, EmptyPairContainer, template::{match_char_by, RepMinMax, Empty}}, Position, Span, Stack};
use std::sync::atomic::{AtomicUsize, Ordering};
static CALLS: AtomicUsize = AtomicUsize::new(0);
#[derive(Clone, Copy, Debug, Hash, Eq, Ord, PartialEq, PartialOrd)]
enum Rule { EOI }
impl RuleType for Rule { const EOI: Self = Self::EOI; }
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
struct A;
impl EmptyPairContainer for A {}
impl<'i> TypedNode<'i, Rule> for A {
    fn try_parse_with_partial(mut p: Position<'i>, _s: &mut Stack<Span<'i>>, _t: &mut Tracker<'i, Rule>) -> Option<(Position<'i>, Self)> {
        CALLS.fetch_add(1, Ordering::SeqCst);
        match_char_by(&mut p, |c| c == 'a').map(|_| (p, A))
    }
    fn check_with_partial(mut p: Position<'i>, _s: &mut Stack<Span<'i>>, _t: &mut Tracker<'i, Rule>) -> Option<Position<'i>> {
        CALLS.fetch_add(1, Ordering::SeqCst);
        match_char_by(&mut p, |c| c == 'a').map(|_| p)
    }
}
fn main() {
    let (p, _) = <RepMinMax<A, Empty, 1, 3> as TypedNode<Rule>>::try_parse_partial("aaaaa").unwrap();
    assert_eq!(p.pos(), 3);
    assert_eq!(CALLS.load(Ordering::SeqCst), 3);
}
'''})
mk("P04-polarity-resets","C04",
 "a positive lookahead nested in a negative one, with a rule after it inside the negative one at the furthest position",
 "after a nested positive lookahead the tracker forgets that it is inside a negative one and reports expected instead of unexpected rules",
 [(K,'''        let original = self.positive;
        self.positive = POSTIVE;
        let res = f(self);
        self.positive = original;
        res''','''        self.positive = POSTIVE;
        let res = f(self);
        self.positive = true;
        res''')],
 demo('''a = "a"
b = "b"
main = !(&a - a - b) - "abc"''',
 '''    let e = P::try_parse::<rules::main>("ab").unwrap_err();
    let e = format!("{e}");
    assert!(e.contains("Unexpected [b]"), "{e}");'''))
mk("P05-lookahead-pairs","C05",
 "the pair view of a rule whose body has a successful positive lookahead over a rule",
 "a positive lookahead hands out the pairs of the peeked node, so pairs that are not part of the derivation appear",
 [(T,'impl<T> EmptyPairContainer for Positive<T> {}','''impl<R, T: PairContainer<R>> PairContainer<R> for Positive<T> {
    fn for_each_child_pair(&self, f: &mut impl FnMut(crate::token::Pair<R>)) {
        self.content.for_each_child_pair(f)
    }
}''')],
 demo('''x = "x"
y = x - "y"
main = &y - "xy"''',
 '''    use pest3_core::typed::PairTree;
    let m = P::try_parse::<rules::main>("xy").unwrap();
    let p: pest3_core::token::Pair<Rule> = m.as_pair_tree();
    assert!(p.children.is_empty(), "{p}");'''))
mk("P06-polarity-per-thread","C06",
 "a parse abandoned by a panic inside a negative lookahead, or a parse nested inside one, then another parse on the same thread that fails",
 "the polarity of the error tracker lives in the thread instead of the parse: after a panic in a negative lookahead later parses report the wrong expectations",
 [(K,'''    positive: bool,
    /// upper rule''','''    /// upper rule'''),
  (K,'''            positive: true,
            attempts''','''            attempts'''),
  (K,'''        let original = self.positive;
        self.positive = POSTIVE;
        let res = f(self);
        self.positive = original;
        res''','''        let original = POSITIVE_MODE.with(|p| p.replace(POSTIVE));
        let res = f(self);
        POSITIVE_MODE.with(|p| p.set(original));
        res'''),
  (K,'''        if self.prepare(pos) && succeeded != self.positive {
            let positive = self.positive;''','''        let positive = POSITIVE_MODE.with(|p| p.get());
        if self.prepare(pos) && succeeded != positive {'''),
  (K,'''/// Error tracker.
pub struct''','''std::thread_local! {
    static POSITIVE_MODE: core::cell::Cell<bool> = const { core::cell::Cell::new(true) };
}

/// Error tracker.
pub struct'''),
 ],
 {"src/main.rs":'''use pest3_core::{typed::{TypedNode, Tracker, EmptyPairContainer}, Position, Span, Stack};
use pest3::Parser;
#[derive(Parser)]
#[grammar_inline = r##"
a = "a"
main = a - "b"
guard(x) = !x - "z"
"##]
struct P;
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
struct Boom;
impl EmptyPairContainer for Boom {}
impl<'i> TypedNode<'i, Rule> for Boom {
    fn try_parse_with_partial(_p: Position<'i>, _s: &mut Stack<Span<'i>>, _t: &mut Tracker<'i, Rule>) -> Option<(Position<'i>, Self)> { panic!("boom") }
    fn check_with_partial(_p: Position<'i>, _s: &mut Stack<Span<'i>>, _t: &mut Tracker<'i, Rule>) -> Option<Position<'i>> { panic!("boom") }
}
fn err() -> String { rules::main::try_parse("x").unwrap_err().to_string() }
fn main() {
    let before = err();
    let r = std::panic::catch_unwind(|| { let _ = rules::guard::<Boom>::try_parse("z"); });
    assert!(r.is_err());
    assert_eq!(before, err());
}
'''})
mk("P07-slice-empty-range","C03",
 "a stack slice with a negative end that comes out empty exactly at the bottom of the stack",
 "a stack slice whose negative index reaches exactly the bottom of the stack is treated as out of bounds",
 [(T,'''    } else if index >= -(len as isize) {''','''    } else if index > -(len as isize) {''')],
 demo('''main = pest::stack::push("a") - pest::stack::push("b") - pest::stack::peek[-2..-1]''',
 '''    assert!(P::try_parse::<rules::main>("aba").is_ok());'''))
mk("P08-choice-check-order","C02",
 "a check-only run of a newline: a carriage return followed by a line feed",
 "checking a newline stops between the two characters of CRLF, parsing does not",
 [(T,'''        if input.match_string("\\r\\n") || input.match_string("\\n") || input.match_string("\\r") {
            Some(input)''','''        if input.match_string("\\n") || input.match_string("\\r") || input.match_string("\\r\\n") {
            Some(input)''')],
 demo('''main = pest::newline - "x"''',
 '''    assert!(P::try_parse::<rules::main>("\\r\\nx").is_ok());
    assert!(rules::main::check("\\r\\nx").is_ok());'''))
