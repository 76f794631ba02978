from seedlib import mk
T="core/src/typed/template/mod.rs"; PO="core/src/position.rs"; TR="core/src/typed/tracker.rs"; TT="core/src/typed/traits.rs"
RP="core/src/typed/template/repetition.rs"; G="generator/src/typed/generator.rs"; O="generator/src/typed/output.rs"; CF="generator/src/config.rs"; PA="meta/src/parser.rs"; F="core/src/formatter.rs"
HEAD='''use pest3::Parser;
#[allow(unused)]
use pest3_core::{typed::{TypedNode as _, TypedParser as _, PairContainer as _, Tracker}, Position, Span, Stack};
#[derive(Parser)]
#[grammar_inline = r##"
%s
"##]
struct P;
fn main() {
%s
}
'''
def e(g, m): return {"src/main.rs": HEAD % (g, m)}

mk("P27-pop-puts-back","C02","parsing (not checking) a pop against text that differs, with a caller-supplied stack looked at afterwards",
   "after the failure the stack still holds the popped span when parsing, but not when checking",
   [(T,"""            Some(span) => match input.match_string(span.as_str()) {
                true => Some((input, Self::from(span))),
                false => None,""","""            Some(span) => match input.match_string(span.as_str()) {
                true => Some((input, Self::from(span))),
                // Nothing was matched, so nothing is popped.
                false => {
                    stack.push(span);
                    None
                }""")],
   e('main = pest::stack::push("a") - pest::stack::pop','''
    let left = |check: bool| {
        let p = Position::from_start("ab");
        let mut s = Stack::new();
        let mut t = Tracker::new(p);
        if check {
            assert!(rules::main::check_with_partial(p, &mut s, &mut t).is_none());
        } else {
            assert!(rules::main::try_parse_with_partial(p, &mut s, &mut t).is_none());
        }
        s.len()
    };
    assert_eq!(left(true), left(false));'''))
mk("P28-fold-every-case","C03","a case-insensitive literal with a letter outside of ASCII, and an input in the other case",
   "the literal also matches the other case of a letter outside of ASCII",
   [(PO,"slice.eq_ignore_ascii_case(string)","slice.eq_ignore_ascii_case(string) || slice.to_lowercase() == string.to_lowercase()")],
   e('main = i"é"','''
    assert!(P::try_parse::<rules::main>("é").is_ok());
    assert!(P::try_parse::<rules::main>("É").is_err());'''))
mk("P29-line-column-remembered","C06","two parses of different texts that lie at the same address one after the other, with the error at the same offset",
   "the second error reports the line and column of the first",
   [(PO,"""    pub fn line_col(&self) -> (usize, usize) {
        if self.pos > self.input.len() {
            panic!("position out of bounds");
        }
""","""    pub fn line_col(&self) -> (usize, usize) {
        if self.pos > self.input.len() {
            panic!("position out of bounds");
        }
        std::thread_local! {
            static LAST: core::cell::Cell<(usize, usize, usize, (usize, usize))> =
                const { core::cell::Cell::new((0, 0, 0, (0, 0))) };
        }
        // Reports ask for the same position several times.
        let (start, len, pos, known) = LAST.with(|last| last.get());
        let here = (self.input.as_ptr() as usize, self.input.len(), self.pos);
        if here == (start, len, pos) {
            return known;
        }
        let line_col = self.count_line_col();
        LAST.with(|last| last.set((here.0, here.1, here.2, line_col)));
        line_col
    }
    fn count_line_col(&self) -> (usize, usize) {
""")],
   e('y = "y"\nmain = ("x" | "\\n" | " ")* - y','''
    let e = |b: &str| P::try_parse::<rules::main>(b).unwrap_err().to_string();
    let alone = std::thread::spawn(move || e("xxxz")).join().unwrap();
    let mut buffer = String::from("xx\\nz");
    let first = e(&buffer);
    let p = buffer.as_ptr();
    buffer.clear();
    buffer.push_str("xxxz");
    assert_eq!(p, buffer.as_ptr());
    assert!(first != alone);
    assert_eq!(e(&buffer), alone);'''))
mk("P30-body-tried-twice","C07","repetitions nested in one another",
   "each level of nesting doubles the attempts of the innermost body",
   [(RP,"""    let (next, matched) = T::try_parse_with_partial(input, stack, tracker)?;
    input = next;
    Some((input, matched))""","""    // Do not build what is thrown away.
    let depth = stack.len();
    stack.snapshot();
    let fits = T::check_with_partial(input, stack, tracker).is_some();
    stack.restore();
    if !fits || depth != stack.len() {
        return None;
    }
    let (next, matched) = T::try_parse_with_partial(input, stack, tracker)?;
    input = next;
    Some((input, matched))""")],
   {"src/main.rs":open("/verif/seeded/P03-rep-probes-past-max/files/src/main.rs").read().split("fn main()")[0]+'''fn main() {
    let (p, _) = <RepMinMax<A, Empty, 1, 9> as TypedNode<Rule>>::try_parse_partial("aaab").unwrap();
    assert_eq!(p.pos(), 3);
    assert_eq!(CALLS.load(Ordering::SeqCst), 4);
}
'''})
mk("P32-shared-import-loses-depths","C11","a file imported twice, the second time by a module that reaches it first elsewhere, and itself importing another file",
   "the files behind a shared import are recorded by the first importer only",
   [(PA,"""                        dependencies.extend(module.dependencies.iter().cloned());""","""                        if Arc::strong_count(&module) <= 2 {
                            dependencies.extend(module.dependencies.iter().cloned());
                        }""")],
   None or {"src/main.rs":open("/verif/seeded/P13-last-root-depends/files/src/main.rs").read().split("fn run(")[0]+'''fn run(d: &PathBuf) {
    std::env::set_var("CARGO_MANIFEST_DIR", d);
    put(d.join("root.pest"), b"use a\\nuse b\\nr = a::a | b::b");
    put(d.join("a.pest"), b"use s\\na = s::s");
    put(d.join("b.pest"), b"use s\\nb = s::s");
    put(d.join("s.pest"), b"use t\\ns = t::t");
    put(d.join("t.pest"), b"t = \\"x\\"");
    let m = load(&d.join("root.pest")).unwrap();
    let deps = |m: &pest3_meta::parser::GrammarModule| m.dependencies.iter().map(|p| p.file_name().unwrap().to_string_lossy().to_string()).collect::<Vec<_>>();
    assert_eq!(deps(&m), ["a.pest", "b.pest", "s.pest", "t.pest"]);
    for i in &m.imports {
        if let pest3_meta::parser::Import::File(_, m) = i {
            assert_eq!(deps(m), ["s.pest", "t.pest"]);
        }
    }
}
'''})
mk("P33-read-by-size","C09","a grammar file whose reported size is not its length, as on some virtual file systems, or one that grows",
   "only as much of the grammar as the reported size says is read, and the rest is ignored",
   [(CF,"use std::{env,","use std::{env,",1)] if False else
   [(CF,"""                let data = match read_to_string(&path) {
                    Ok(data) => data,
                    Err(error) => panic!("error opening {file_name:?}: {error}"),
                };""","""                let read = || {
                    use std::io::Read;
                    let file = std::fs::File::open(&path)?;
                    let size = file.metadata()?.len();
                    let mut data = String::with_capacity(size as usize);
                    file.take(size).read_to_string(&mut data)?;
                    Ok::<_, std::io::Error>(data)
                };
                let data = match read() {
                    Ok(data) => data,
                    Err(error) => panic!("error opening {file_name:?}: {error}"),
                };""")],
   {"src/main.rs":open("/verif/seeded/P13-last-root-depends/files/src/main.rs").read().split("fn run(")[0]+'''fn run(d: &PathBuf) {
    std::env::set_var("CARGO_MANIFEST_DIR", d);
    // A pipe reports no size.
    use std::io::Write;
    let p = d.join("root.pest");
    assert!(std::process::Command::new("mkfifo").arg(&p).status().unwrap().success());
    let q = p.clone();
    std::thread::spawn(move || fs::OpenOptions::new().write(true).open(q).unwrap().write_all(b"a = \\"x\\"\\nb = \\"y\\"").unwrap());
    let code = derive("root.pest").unwrap_or_default();
    assert!(code.contains("struct r#b") || code.contains("struct b") , "{}", code.len());
}
'''})
mk("P34-cached-by-name","C10","two imported files with the same name in different directories",
   "both import names denote the rules of the file met first",
   [(PA,"let key = path.canonicalize().map_err(cannot_read)?;","let key = path.canonicalize().map_err(cannot_read)?;\n                        let key = key.file_name().map(PathBuf::from).unwrap_or(key);"),
    (PA,"                                cache.insert(key, Some(module.clone()));\n","                                cache.insert(key, Some(Arc::clone(&module)));\n")],
   {"src/main.rs":open("/verif/seeded/P13-last-root-depends/files/src/main.rs").read().split("fn run(")[0]+'''fn run(d: &PathBuf) {
    std::env::set_var("CARGO_MANIFEST_DIR", d);
    put(d.join("root.pest"), b"use x::m as one\\nuse y::m as two\\nr = one::a | two::b");
    put(d.join("x/m.pest"), b"a = \\"x\\"");
    put(d.join("y/m.pest"), b"b = \\"y\\"");
    let m = load(&d.join("root.pest")).unwrap();
    let got: Vec<_> = m.imports.iter().map(|i| match i { pest3_meta::parser::Import::File(n, m) => (n.clone(), names(m)), _ => panic!() }).collect();
    assert_eq!(got, [("one".to_string(), vec!["a".to_string()]), ("two".to_string(), vec!["b".to_string()])]);
}
'''})
mk("P36-at-most-loses-trivia","C13","a repetition with only an upper bound whose body is followed by ~",
   "no trivia is allowed between the iterations",
   [(G,"""                (None, Some(end)) => {
                    quote! { #root::#generics::RepMax::<#inner_name, #trivia, #end> }""","""                (None, Some(end)) => {
                    let none = embed_trivia(&Trivia::None);
                    let trivia = if *end > 2 { &none } else { &trivia };
                    quote! { #root::#generics::RepMax::<#inner_name, #trivia, #end> }""")],
   e('~ = " "*\nmain = "a"~{..3}','''
    assert!(P::try_parse::<rules::main>("a a a").is_ok());'''))
mk("P38-restore-what-grew","C01","an optional element that pops and then pushes as much before it is abandoned",
   "the stack keeps its size but not its contents",
   [(TT,"""            None => {
                stack.restore();
                Some((input, None))
            }""","""            None => {
                // Only what was pushed has to go.
                if stack.len() != depth {
                    stack.restore();
                } else {
                    stack.clear_snapshot();
                }
                Some((input, None))
            }"""),
    (TT,"""        stack.snapshot();
        match T::try_parse_with_partial(input, stack, tracker) {""","""        let depth = stack.len();
        stack.snapshot();
        match T::try_parse_with_partial(input, stack, tracker) {""")],
   e('main = pest::stack::push("a") - (pest::stack::pop - pest::stack::push("b") - "!")? - "ab" - pest::stack::pop','''
    assert!(P::try_parse::<rules::main>("aaba").is_ok());'''))
mk("P39-stale-stack-errors","C04","a stack error in an abandoned alternative, and a failure further on",
   "the report of the later failure still lists the stack error",
   [(TR,"""    fn clear(&mut self) {
        self.attempts.clear();
    }""","""    fn clear(&mut self) {
        for (positives, negatives, _) in self.attempts.values_mut() {
            positives.clear();
            negatives.clear();
        }
        self.attempts.retain(|_, (_, _, special)| !special.is_empty());
    }""")],
   e('a = pest::stack::pop - "x"\nb = "b"\nc = "c"\nmain = a | b - c','''
    let e = P::try_parse::<rules::main>("bd").unwrap_err().to_string();
    assert!(e.contains("[c]") && !e.contains("Nothing to pop"), "{e}");'''))
mk("P40-long-repetition-hides-pairs","C05","more than five iterations of a rule",
   "the pairs of the iterations from the sixth on are replaced by their children",
   [(RP,"""        for item in &self.content {
            item.for_self_or_for_each_child_pair(f)
        }""","""        let (some, more) = self.content.split_at(self.content.len().min(5));
        some.iter()
            .for_each(|item| item.for_self_or_for_each_child_pair(f));
        more.iter().for_each(|item| item.for_each_child_pair(f));""")],
   e('a = "a"\nmain = a*','''
    let m = P::try_parse::<rules::main>("aaaaaaaa").unwrap();
    assert_eq!(pest3_core::typed::PairTree::as_pair_tree(&m).children.len(), 8);'''))
