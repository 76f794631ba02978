from seedlib import mk
G="generator/src/typed/generator.rs"
M="generator/src/typed/module.rs"
def refused(good, bads):
    return {"src/main.rs":'''
use std::str::FromStr;
fn derives(text: &str) -> bool {
    std::panic::set_hook(Box::new(|_| {}));
    let text = text.to_string();
    std::panic::catch_unwind(move || {
        let input = format!("#[grammar_inline = {text:?}] struct P;");
        pest3_generator::typed::derive_typed_parser(proc_macro2::TokenStream::from_str(&input).unwrap(), false, true).to_string()
    })
    .is_ok()
}
fn main() {
    for good in %s {
        if !derives(good) {
            println!("refused: {good}");
            std::process::exit(1);
        }
    }
    for bad in %s {
        if derives(bad) {
            println!("accepted: {bad}");
            std::process::exit(1);
        }
    }
}
''' % (good, bads)}
mk("P23-class-takes-slice","C15","a Unicode class followed by a slice, as when a repetition's braces are mistyped as brackets",
   "the slice is dropped and the grammar is accepted",
   [(M,"                    _ => false,\n                };\n                if !empty","                    // A slice holds no expressions.\n                    Some(ProcessedPathArgs::Slice(_)) => true,\n                };\n                if !empty")],
   refused('["a = pest::unicode::letter{1..2}"]','["a = pest::unicode::letter[1..2]"]'))
mk("P24-path-tail-ignored","C15","a path that goes on after the name of a built-in class, as after a lost operator",
   "the rest of the path is ignored and the class is used",
   [(M,"""        for node in iter {
            rc = rc.child(node)?;
        }
""","""        for node in iter {
            rc = match rc.child(node) {
                // Classes are leaves of the module tree.
                Err(ModuleError::NoChildren) if matches!(*rc, Self::Absolute(_)) => break,
                child => child?,
            };
        }
""")],
   refused('["b = \\"b\\"\\na = pest::unicode::letter - b"]','["b = \\"b\\"\\na = pest::unicode::letter::b"]'))
mk("P25-mandatory-trivia-optional","C15","^ is used in a grammar that defines ~ only",
   "the grammar is accepted and ^ matches nothing at all",
   [(G,"""                mandatory_trivia.expect(&expect_trivia);""","""                // Mandatory trivia can be told by means of optional trivia.
                mandatory_trivia.or(optional_trivia).expect(&expect_trivia);""")],
   refused('["~ = \\" \\"*\\na = \\"x\\" ~ \\"y\\"", "^ = \\" \\"\\na = \\"x\\" ^ \\"y\\""]','["a = \\"x\\" ^ \\"y\\"", "~ = \\" \\"*\\na = \\"x\\" ^ \\"y\\""]'))
mk("P26-rule-hides-import","C15","a rule has the name under which a built-in rule was imported",
   "the import is silently replaced by the rule",
   [(M,"""            if prev.is_some() {
                Err(ModuleError::AlreadyDefined(key))""","""            let defined = |node: &ModuleNode<'g>| {
                matches!(
                    node,
                    ModuleNode::Generics(RuleGenerics::Rule { .. }) | ModuleNode::Collection(_)
                )
            };
            if prev.is_some_and(|node| defined(&node)) {
                Err(ModuleError::AlreadyDefined(key))""")],
   refused('["use pest::any as dot\\na = dot"]','["a = \\"a\\"\\na = \\"b\\"", "use pest::any as dot\\ndot = \\"a\\"\\na = dot"]'))
