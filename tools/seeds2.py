from seedlib import mk
M="meta/src/parser.rs"
C="generator/src/config.rs"
DERIVE='''use std::{fs, path::PathBuf, str::FromStr};
fn derive(root: &str) -> Result<String, ()> {
    let ts = proc_macro2::TokenStream::from_str(&format!("#[grammar = {root:?}] struct Parser;")).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| pest3_generator::typed::derive_typed_parser(ts, true, true).to_string()).map_err(|_| ());
    let _ = std::panic::take_hook();
    r
}
fn load(root: &PathBuf) -> Result<std::sync::Arc<pest3_meta::parser::GrammarModule>, String> {
    std::panic::catch_unwind(|| pest3_meta::parser::parse(&fs::read_to_string(root).unwrap(), root).map_err(|e| e.to_string())).unwrap_or_else(|_| Err("panic".into()))
}
fn names(m: &pest3_meta::parser::GrammarModule) -> Vec<String> {
    m.rules.iter().map(|r| r.name.clone()).collect()
}
fn main() {
    let d = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    fs::create_dir_all(&d).unwrap();
    let r = std::panic::catch_unwind(|| run(&d));
    fs::remove_dir_all(&d).unwrap();
    if let Err(e) = r {
        std::panic::resume_unwind(e);
    }
}
fn put(p: PathBuf, t: &[u8]) {
    fs::create_dir_all(p.parent().unwrap()).unwrap();
    fs::write(p, t).unwrap();
}
#[allow(dead_code)]
fn unused() {
    let _ = (derive("x"), load(&PathBuf::new()).map(|m| names(&m)));
}
fn run(d: &PathBuf) {
    std::env::set_var("CARGO_MANIFEST_DIR", d);
%s
}
'''
def demo(b): return {"src/main.rs": DERIVE % b}
mk("P09-root-lossy","C09",
 "a root grammar with a byte sequence that is not UTF-8 (a truncated or corrupted file) given to the derive",
 "a corrupted root grammar is accepted, with the bad bytes replaced",
 [(C,'''                let data = match read_to_string(&path) {
                    Ok(data) => data,''','''                let data = match std::fs::read(&path) {
                    Ok(data) => String::from_utf8_lossy(&data).into_owned(),'''),
  (C,'''    fs::read_to_string,
''','')],
 demo('''    put(d.join("g.pest"), b"a = \\"x\\"");
    assert!(derive("g.pest").is_ok());
    put(d.join("g.pest"), b"a = \\"x\\xff\\"");
    assert!(derive("g.pest").is_err());'''))
mk("P10-bad-rule-dropped","C09",
 "an imported grammar in which one rule has a literal or number that is well-formed but out of range",
 "the load succeeds with that rule missing",
 [(M,'''                rules.push(parse_rule(pair, root.as_ref().to_path_buf())?);''',
   '''                rules.extend(parse_rule(pair, root.as_ref().to_path_buf()));''')],
 demo('''    put(d.join("root.pest"), b"use sub::m\\nb = m::c");
    put(d.join("sub/m.pest"), b"a = \\"\\\\u{d800}\\"\\nc = \\"x\\"");
    assert!(load(&d.join("root.pest")).is_err());
    put(d.join("sub/m.pest"), b"a = \\"\\\\u{d7ff}\\"\\nc = \\"x\\"");
    assert!(load(&d.join("root.pest")).is_ok());'''))
mk("P11-pest-anywhere","C10",
 "an import path with a directory called `pest` that is not its first section",
 "the import is taken for a built-in module and the file is never loaded",
 [(M,'''if mod_path.starts_with(&["pest".to_owned()]) {''','''if mod_path.contains(&"pest".to_owned()) {''')],
 demo('''    put(d.join("g/root.pest"), b"use super::pest::m\\nb = m::c");
    put(d.join("pest/m.pest"), b"c = \\"x\\"");
    let m = load(&d.join("g/root.pest")).unwrap();
    assert_eq!(m.dependencies.len(), 1);
    assert!(matches!(&m.imports[0], pest3_meta::parser::Import::File(n, f) if n == "m" && names(f) == ["c"]));'''))
mk("P12-parent-any-extension","C10",
 "an importing file in a directory whose name has a dot, for example `v1.2`, with an import of a sibling",
 "the import is resolved one directory too high",
 [(M,'''    if matches!(path.extension().map(|x| x.to_str()), Some(Some("pest"))) {''','''    if path.extension().is_some() {''')],
 demo('''    put(d.join("root.pest"), format!("use a in {:?}\\nb = a::c", d.join("v1.2/a.pest")).as_bytes());
    put(d.join("v1.2/a.pest"), b"use m\\nc = m::d");
    put(d.join("v1.2/m.pest"), b"d = \\"x\\"");
    put(d.join("m.pest"), b"e = \\"y\\"");
    let m = load(&d.join("root.pest")).unwrap();
    let pest3_meta::parser::Import::File(_, a) = &m.imports[0] else { panic!() };
    let pest3_meta::parser::Import::File(_, m) = &a.imports[0] else { panic!() };
    assert_eq!(names(m), ["d"]);'''))
mk("P13-last-root-depends","C11",
 "a parser derived from several root grammars of which one that is not the last has imports",
 "edits of the files imported by the earlier roots do not trigger a rebuild",
 [(M,'''            dependencies.extend(item.dependencies);''','''            dependencies = item.dependencies;''')],
 demo('''    put(d.join("one.pest"), b"use sub::m\\nb = m::c");
    put(d.join("two.pest"), b"e = \\"y\\"");
    put(d.join("sub/m.pest"), b"c = \\"x\\"");
    let ts = proc_macro2::TokenStream::from_str("#[grammar = \\"one.pest\\"] #[grammar = \\"two.pest\\"] struct Parser;").unwrap();
    let code = pest3_generator::typed::derive_typed_parser(ts, true, true).to_string();
    assert!(code.contains("two.pest") && code.contains("one.pest") && code.contains("m.pest"));'''))
mk("P14-grammar-text-cached","C12",
 "two derivations in one process from a root grammar file that changed in between (a long-lived macro server)",
 "the second derivation uses the old text",
 [(C,'''                let data = match read_to_string(&path) {
                    Ok(data) => data,
                    Err(error) => panic!("error opening {file_name:?}: {error}"),
                };
''','''                static READ: std::sync::Mutex<std::collections::BTreeMap<PathBuf, String>> =
                    std::sync::Mutex::new(std::collections::BTreeMap::new());
                let mut read = READ.lock().unwrap_or_else(|e| e.into_inner());
                let data = match read.get(&path) {
                    Some(data) => data.clone(),
                    None => match read_to_string(&path) {
                        Ok(data) => read.entry(path.clone()).or_insert(data).clone(),
                        Err(error) => panic!("error opening {file_name:?}: {error}"),
                    },
                };
''')],
 demo('''    put(d.join("g.pest"), b"a = \\"x\\"");
    let x = derive("g.pest").unwrap();
    put(d.join("g.pest"), b"a = \\"y\\"");
    let y = derive("g.pest").unwrap();
    assert!(x != y);
    put(d.join("g.pest"), b"a = \\"x\\"");
    assert_eq!(derive("g.pest").unwrap(), x);'''))
