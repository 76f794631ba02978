from seedlib import mk
T="core/src/typed/template/mod.rs"; TR="core/src/typed/tracker.rs"; TT="core/src/typed/traits.rs"; CH="core/src/choice.rs"; F="core/src/formatter.rs"
G="generator/src/typed/generator.rs"; O="generator/src/typed/output.rs"; CF="generator/src/config.rs"; CM="generator/src/common.rs"; PA="meta/src/parser.rs"
HEAD='''use pest3::Parser;
#[allow(unused)]
use pest3_core::{typed::{TypedNode as _, TypedParser as _, PairContainer as _, Tracker}, Position, Span, Stack};
#[derive(Parser)]
#[grammar_inline = r##"
%s
"##]
struct P;
fn main() {
%s
}
'''
def e(g, m): return {"src/main.rs": HEAD % (g, m)}
GEN='''use std::{fs, path::PathBuf, str::FromStr};
#[allow(unused)]
fn derive(input: &str) -> String {
    pest3_generator::typed::derive_typed_parser(proc_macro2::TokenStream::from_str(input).unwrap(), true, true).to_string()
}
#[allow(unused)]
fn put(p: PathBuf, text: &[u8]) {
    fs::create_dir_all(p.parent().unwrap()).unwrap();
    fs::write(p, text).unwrap();
}
fn main() {
    let d = std::env::temp_dir().join(format!("pest3-demo-{}", std::process::id()));
    fs::create_dir_all(&d).unwrap();
    let r = std::panic::catch_unwind(|| run(d.clone()));
    fs::remove_dir_all(&d).unwrap();
    if r.is_err() {
        std::process::exit(1);
    }
}
fn run(d: PathBuf) {
%s
}
'''
def g(m): return {"src/main.rs": GEN % m}

RP="core/src/typed/template/repetition.rs"; SQ="core/src/sequence.rs"; GT="generator/src/typed/getter.rs"
mk("P49-report-starts-afresh","C04","a parse resumed further back with the tracker of the parse before",
   "the report forgets the further failure of the parse before",
   [(TR,"""        if let Some((_, _, has_children)) = self.stack.last_mut() {
            *has_children = true;
        }
""","""        match self.stack.last_mut() {
            Some((_, _, has_children)) => *has_children = true,
            None if pos < self.position => {
                // A new parse starts here.
                self.clear();
                self.position = pos;
            }
            None => {}
        }
""",2)],
   e("""a = "a"
b = "b"
main = a - a - a - b""","""    use rules::main as M;
    let input = Position::from_start("aaac");
    let mut tracker = Tracker::new(input);
    let mut stack = Stack::new();
    assert!(M::try_parse_with_partial(input, &mut stack, &mut tracker).is_none());
    assert!(M::try_parse_with_partial(Position::new("aaac", 1).unwrap(), &mut stack, &mut tracker).is_none());
    let (pos, attempts) = tracker.finish();
    assert_eq!(pos.pos(), 3);
    assert!(attempts.values().any(|x| x.0.contains(&Rule::b)));"""))
mk("P50-quiet-trivia-in-check","C02","trivia made of rules that fail further on than anything else, in a repetition, checked only",
   "checking forgets what trivia expected, parsing does not",
   [(RP,"""    if i > 0 {
        input = TRIVIA::check_with_partial(input, stack, tracker)?;
    }
    let next = T::check_with_partial(""","""    if i > 0 {
        // What trivia expects is of no interest.
        let mut trivia = Tracker::<R>::new(input);
        input = TRIVIA::check_with_partial(input, stack, &mut trivia)?;
    }
    let next = T::check_with_partial(""")],
   e("""close = "*/"
comment = "/*" - close
~ = (" " | comment)*
main = "x"~*""","""    let parsed = P::try_parse::<rules::main>("x /*").unwrap_err().to_string();
    let checked = rules::main::check("x /*").unwrap_err().to_string();
    assert_eq!(parsed, checked);"""))
mk("P51-no-progress-stop","C03","a repetition whose iterations match without consuming and end by failing",
   "a repetition that has reached its minimum ends after an iteration that consumed nothing",
   [(RP,"""                Some((next, matched)) => {
                    input = next;
                    vec.push(matched);
                }
                None => {
                    if i < MIN""","""                Some((next, matched)) => {
                    // Another iteration would not get any further.
                    let stuck = i >= MIN && next == input;
                    input = next;
                    vec.push(matched);
                    if stuck {
                        break;
                    }
                }
                None => {
                    if i < MIN"""),
    (RP,"""                Some(next) => {
                    input = next;
                }
""","""                Some(next) => {
                    let stuck = i >= MIN && next == input;
                    input = next;
                    if stuck {
                        break;
                    }
                }
""")],
   e("""main = pest::stack::push("a"){3} - pest::stack::drop* - !pest::stack::peek - "ab" """,'    assert!(P::try_parse::<rules::main>("aaaab").is_ok());'))
mk("P52-empty-pairs-dropped","C05","a rule that matches nothing and is a child of another rule",
   "the pair of a rule that matched nothing is missing from its parent",
   [(TT,"        self.for_each_child_pair(&mut |token| vec.push(token));","""        self.for_each_child_pair(&mut |token| {
            if token.start < token.end {
                vec.push(token)
            }
        });""")],
   e("""a = "a"?
main = a - "b" ""","""    let m = P::try_parse::<rules::main>("b").unwrap();
    assert_eq!(pest3_core::typed::PairTree::as_pair_tree(&m).children.len(), 1);"""))
