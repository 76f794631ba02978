from seedlib import mk
T="core/src/typed/template/mod.rs"; TR="core/src/typed/tracker.rs"; TT="core/src/typed/traits.rs"; CH="core/src/choice.rs"; F="core/src/formatter.rs"
G="generator/src/typed/generator.rs"; O="generator/src/typed/output.rs"; CF="generator/src/config.rs"; CM="generator/src/common.rs"; PA="meta/src/parser.rs"
HEAD='''use pest3::Parser;
#[allow(unused)]
use pest3_core::{typed::{TypedNode as _, TypedParser as _, PairContainer as _, Tracker}, Position, Span, Stack};
#[derive(Parser)]
#[grammar_inline = r##"
%s
"##]
struct P;
fn main() {
%s
}
'''
def e(g, m): return {"src/main.rs": HEAD % (g, m)}
GEN='''use std::{fs, path::PathBuf, str::FromStr};
#[allow(unused)]
fn derive(input: &str) -> String {
    pest3_generator::typed::derive_typed_parser(proc_macro2::TokenStream::from_str(input).unwrap(), true, true).to_string()
}
#[allow(unused)]
fn put(p: PathBuf, text: &[u8]) {
    fs::create_dir_all(p.parent().unwrap()).unwrap();
    fs::write(p, text).unwrap();
}
fn main() {
    let d = std::env::temp_dir().join(format!("pest3-demo-{}", std::process::id()));
    fs::create_dir_all(&d).unwrap();
    let r = std::panic::catch_unwind(|| run(d.clone()));
    fs::remove_dir_all(&d).unwrap();
    if r.is_err() {
        std::process::exit(1);
    }
}
fn run(d: PathBuf) {
%s
}
'''
def g(m): return {"src/main.rs": GEN % m}

mk("P41-package-remembered","C12","two derivations in one process for different packages (a long-lived macro server)",
   "the second package's grammar path is looked up in the first package",
   [(CF,'''                let root = env::var("CARGO_MANIFEST_DIR").unwrap_or_else(|_| ".".into());
''','''                static ROOT: std::sync::OnceLock<String> = std::sync::OnceLock::new();
                let root =
                    ROOT.get_or_init(|| env::var("CARGO_MANIFEST_DIR").unwrap_or_else(|_| ".".into()));
''')],
   g('''    put(d.join("one/g.pest"), b"a = \\"x\\"");
    put(d.join("two/g.pest"), b"b = \\"y\\"");
    let code = |p: &str| {
        std::env::set_var("CARGO_MANIFEST_DIR", d.join(p));
        derive("#[grammar = \\"g.pest\\"] struct Parser;")
    };
    let first = code("two");
    assert!(first.contains("\\"y\\""));
    assert!(code("one").contains("\\"x\\""));
    assert_eq!(first, code("two"));'''))
mk("P42-wrappers-numbered-on","C12","a second derivation on the same thread of a process",
   "string wrappers are numbered on from the derivation before",
   [(O,'''            let index = self.wrapper_counter.len();
''','''            std::thread_local! {
                static NEXT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
            }
            // Wrappers of different parsers must not be confused.
            let index = NEXT.with(|next| next.replace(next.get() + 1));
''')],
   g('''    let _ = d;
    let code = || derive("#[grammar_inline = \\"a = \\\\\\"x\\\\\\" | \\\\\\"y\\\\\\"\\"] struct Parser;");
    assert_eq!(code(), code());'''))
mk("P43-files-hashed","C12","a grammar that imports several files",
   "the imported files are listed in the code in an order that changes from run to run",
   [(PA,"    pub dependencies: BTreeSet<PathBuf>,","    pub dependencies: std::collections::HashSet<PathBuf>,"),
    (PA,"        let mut dependencies = BTreeSet::default();","        let mut dependencies = std::collections::HashSet::default();"),
    (PA,"    collections::{BTreeSet, HashMap},","    collections::HashMap,")],
   g('''    let mut root = String::new();
    for i in 0..12 {
        put(d.join(format!("m{i}.pest")), b"a = \\"x\\"");
        root.push_str(&format!("use m{i}\\n"));
    }
    root.push_str("a = m0::a");
    put(d.join("g.pest"), root.as_bytes());
    std::env::set_var("CARGO_MANIFEST_DIR", &d);
    let code = || derive("#[grammar = \\"g.pest\\"] struct Parser;");
    let first = code();
    for _ in 0..8 {
        assert_eq!(first, code());
    }'''))
mk("P44-checked-before-parsed","C07","a choice that is parsed into a tree, with an alternative that counts its attempts",
   "every alternative is checked before it is parsed, so it is attempted twice, and the work of nested choices is quadratic in their depth",
   [(CH,'''                $(
                    stack.snapshot();
                    match $type::try_parse_with_partial(input, stack, tracker) {''','''                $(
                    // Build nothing for an alternative that does not match.
                    stack.snapshot();
                    let matched = $type::check_with_partial(input, stack, tracker).is_some();
                    stack.restore();
                    stack.snapshot();
                    let parsed = if matched {
                        $type::try_parse_with_partial(input, stack, tracker)
                    } else {
                        ::core::option::Option::None
                    };
                    match parsed {''')],
   e('main(x) = x | "b"','''
    use std::cell::Cell;
    thread_local!(static TRIED: Cell<usize> = Cell::new(0));
    #[derive(Debug, Clone, PartialEq)]
    struct Counting;
    impl<'i> pest3_core::typed::TypedNode<'i, Rule> for Counting {
        fn try_parse_with_partial(p: Position<'i>, s: &mut Stack<Span<'i>>, t: &mut Tracker<'i, Rule>) -> Option<(Position<'i>, Self)> {
            Self::check_with_partial(p, s, t).map(|p| (p, Self))
        }
        fn check_with_partial(p: Position<'i>, _: &mut Stack<Span<'i>>, _: &mut Tracker<'i, Rule>) -> Option<Position<'i>> {
            TRIED.set(TRIED.get() + 1);
            Some(p)
        }
    }
    impl pest3_core::typed::EmptyPairContainer for Counting {}
    assert!(P::try_parse::<rules::main<'_, Counting>>("").is_ok());
    assert_eq!(TRIED.get(), 1);'''))
mk("P45-depth-kept-after-panic","C06","many parses on one thread that panic half way, and a parse after them",
   "the nesting depth of the panicked parses is never given back, until every parse on the thread fails",
   [(TR,'''    pub(crate) fn record_option_during_with<T>(
        &mut self,
        pos: Position<'i>,
        f: impl FnOnce(&mut Self) -> Option<T>,
        rule: R,
    ) -> Option<T> {
''','''    pub(crate) fn record_option_during_with<T>(
        &mut self,
        pos: Position<'i>,
        f: impl FnOnce(&mut Self) -> Option<T>,
        rule: R,
    ) -> Option<T> {
        std::thread_local! {
            static DEPTH: core::cell::Cell<usize> = const { core::cell::Cell::new(0) };
        }
        // Far deeper than the stack of the thread allows.
        if DEPTH.with(|depth| depth.replace(depth.get() + 1)) > 10_000 {
            DEPTH.with(|depth| depth.set(depth.get() - 1));
            return None;
        }
        let res = self.record_rule_during_with(pos, f, rule);
        DEPTH.with(|depth| depth.set(depth.get() - 1));
        res
    }
    fn record_rule_during_with<T>(
        &mut self,
        pos: Position<'i>,
        f: impl FnOnce(&mut Self) -> Option<T>,
        rule: R,
    ) -> Option<T> {
''')],
   e('main(x) = "(" - (main(x) | x) - ")"','''
    #[derive(Debug, Clone, PartialEq)]
    struct Bad;
    impl<'i> pest3_core::typed::TypedNode<'i, Rule> for Bad {
        fn try_parse_with_partial(_: Position<'i>, _: &mut Stack<Span<'i>>, _: &mut Tracker<'i, Rule>) -> Option<(Position<'i>, Self)> { panic!() }
        fn check_with_partial(_: Position<'i>, _: &mut Stack<Span<'i>>, _: &mut Tracker<'i, Rule>) -> Option<Position<'i>> { panic!() }
    }
    impl pest3_core::typed::EmptyPairContainer for Bad {}
    std::panic::set_hook(Box::new(|_| {}));
    type Good<'i> = rules::main<'i, generics::any>;
    assert!(P::try_parse::<Good>("((x))").is_ok());
    for _ in 0..3000 {
        assert!(std::panic::catch_unwind(|| P::try_parse::<rules::main<'_, Bad>>(&"(".repeat(50)).is_ok()).is_err());
    }
    assert!(P::try_parse::<Good>("((x))").is_ok());'''))
mk("P46-failure-remembered","C09","an imported file that cannot be read the first time and can the second time, in one process",
   "the later load fails too",
   [(PA,'''                                let module = _parse(
                                    &read_to_string(&path).map_err(cannot_read)?,
''','''                                static FAILED: std::sync::Mutex<BTreeSet<PathBuf>> =
                                    std::sync::Mutex::new(BTreeSet::new());
                                let mut failed = FAILED.lock().unwrap_or_else(|e| e.into_inner());
                                let text = if failed.contains(&key) {
                                    // Asking a broken device again takes long.
                                    Err(std::io::Error::other("the file could not be read before"))
                                } else {
                                    read_to_string(&path)
                                };
                                if text.is_err() {
                                    failed.insert(key.clone());
                                }
                                std::mem::drop(failed);
                                let module = _parse(
                                    &text.map_err(cannot_read)?,
''')],
   g('''    put(d.join("g.pest"), b"use m\\na = m::b");
    put(d.join("m.pest"), b"b = \\"\\xff\\"");
    let load = || pest3_meta::parser::parse(&fs::read_to_string(d.join("g.pest")).unwrap(), &d.join("g.pest"));
    assert!(load().is_err());
    put(d.join("m.pest"), b"b = \\"x\\"");
    assert!(load().is_ok());'''))
mk("P47-files-told-apart-by-name","C11","two imported files of the same name in different directories",
   "the generated code refers to only one of them",
   [(CM,'''    let include_tokens = paths.iter().map(|path| {''','''    // A file met twice is watched once.
    let mut met = std::collections::BTreeSet::new();
    let mut paths = paths;
    paths.retain(|path| met.insert(path.file_name().map(|name| name.to_owned())));
    let include_tokens = paths.iter().map(|path| {''')],
   g('''    put(d.join("g.pest"), b"use one::m\\nuse two::m as n\\na = m::b | n::b");
    put(d.join("one/m.pest"), b"b = \\"x\\"");
    put(d.join("two/m.pest"), b"b = \\"y\\"");
    std::env::set_var("CARGO_MANIFEST_DIR", &d);
    let code = derive("#[grammar = \\"g.pest\\"] struct Parser;");
    assert!(code.contains("one/m.pest") && code.contains("two/m.pest"));'''))
mk("P48-narrow-marker","C08","a span over several lines whose last line has characters of ambiguous width",
   "the marker under its end is in the wrong column",
   [(F,'''" ".repeat(UnicodeWidthStr::width_cjk(end.former.as_str()).saturating_sub(1))''','''" ".repeat(UnicodeWidthStr::width(end.former.as_str()).saturating_sub(1))''')],
   e('main = "x"','''
    let text = "ab\\n\\u{3b1}\\u{3b2}c";
    let span = Span::new(text, 1, text.len()).unwrap();
    let shown = span.to_string();
    let last = shown.lines().last().unwrap();
    assert_eq!(last.find('^').unwrap() - last.find('|').unwrap() - 2, 4, "{shown}");'''))
