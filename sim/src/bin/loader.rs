//! Simulator for the grammar loader and the code generator: properties C09 to C12. The real
//! loader and generator run unmodified; the libc calls the standard library makes for files,
//! hash seeds and the clock end in the simulated storage of `sim::vfs`.
use pest3_meta::parser::{self, GrammarModule};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use sim::baton::Baton;
use sim::gram::{self, real, Loaded};
use sim::rng::{hash_str, mix, Rng};
use sim::sup::*;
use sim::vfs::{self, Change, Disk, Fault, Opened, Policy, World};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::str::FromStr;
use std::sync::Arc;

const MANIFEST: &str = "/vfs/cwd/g";

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
enum Body {
    Text(String),
    Bytes(Vec<u8>),
}
impl Body {
    fn of(b: Vec<u8>) -> Self {
        match String::from_utf8(b) {
            Ok(s) => Body::Text(s),
            Err(e) => Body::Bytes(e.into_bytes()),
        }
    }
    fn bytes(&self) -> Vec<u8> {
        match self {
            Body::Text(s) => s.clone().into_bytes(),
            Body::Bytes(b) => b.clone(),
        }
    }
    fn len(&self) -> usize {
        match self {
            Body::Text(s) => s.len(),
            Body::Bytes(b) => b.len(),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum How {
    /// `pest3_meta::parser::parse` with the root path as given.
    Parse,
    /// The derive with `#[grammar = ..]`.
    Derive,
    /// The derive with `#[grammar_inline = ..]`.
    Inline,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct Case {
    how: How,
    files: BTreeMap<String, Body>,
    /// Normalised path of the root grammar.
    root: String,
    /// As handed to the code under test.
    root_spelled: String,
    /// More root grammars (attribute values) and other attributes (verbatim), derive only.
    #[serde(default)]
    more: Vec<String>,
    #[serde(default)]
    denied: BTreeMap<String, i32>,
    #[serde(default)]
    dirs: BTreeSet<String>,
    #[serde(default)]
    faults: Vec<(u64, Fault)>,
    #[serde(default)]
    policy: Policy,
    /// (before which storage call, file, new content; none: removed)
    #[serde(default)]
    changes: Vec<(u64, String, Option<Body>)>,
    hash_seed: u64,
    /// C12: what else happens.
    #[serde(default)]
    others: Vec<Other>,
    #[serde(default)]
    sched: u64,
    #[serde(default)]
    process: bool,
}

/// Another derivation, before (same thread) or at the same time (another thread).
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct Other {
    before: bool,
    /// The same project, or one with these files.
    files: Option<BTreeMap<String, Body>>,
    hash_seed: u64,
    #[serde(default)]
    policy: Policy,
    #[serde(default)]
    faults: Vec<(u64, Fault)>,
    /// The same project, kept in another package.
    #[serde(default)]
    moved: bool,
}

/// The same scenario with the package in another directory; nothing if its name matters.
fn moved(c: &Case) -> Option<Case> {
    let there = |p: &str| p == MANIFEST || p.starts_with("/vfs/cwd/g/");
    let names = c.files.keys().chain(c.dirs.iter()).chain(c.denied.keys());
    if names.clone().any(|p| p.starts_with("/vfs/cwd/") && !there(p)) {
        return None;
    }
    // A grammar that climbs out of the package and names it.
    let word = |t: &str| t.split(|x: char| !x.is_alphanumeric() && x != '_').any(|w| w == "g");
    if c.files.values().any(|b| match b {
        Body::Text(t) => word(t) || t.contains("/vfs/") || (t.contains("use") && t.contains('\\')),
        Body::Bytes(_) => false,
    }) {
        return None;
    }
    if c.more.iter().chain([&c.root_spelled]).any(|t| word(&t.replace("/vfs/cwd/g/", "")) || t.contains('\\')) {
        return None;
    }
    let s = serde_json::to_string(c).ok()?;
    serde_json::from_str(&relocate(&s)).ok()
}
fn relocate(s: &str) -> String {
    s.replace("/vfs/cwd/g/", "/vfs/cwd/h/").replace("/vfs/cwd/g\"", "/vfs/cwd/h\"")
}

fn disk(c: &Case) -> Disk {
    Disk { files: c.files.iter().map(|(k, v)| (k.clone(), v.bytes())).collect(), dirs: c.dirs.clone(), denied: c.denied.clone() }
}
fn changes(c: &Case) -> Vec<(u64, Change)> {
    c.changes
        .iter()
        .map(|(n, p, b)| {
            (
                *n,
                match b {
                    Some(b) => Change::Replace(p.clone(), b.bytes()),
                    None => Change::Remove(p.clone()),
                },
            )
        })
        .collect()
}

/// What a load or derivation gave.
#[derive(Clone)]
enum Got {
    Module(Arc<GrammarModule>),
    Error(String),
    Code(String),
    Panic(String),
}
impl Got {
    fn ok(&self) -> bool {
        matches!(self, Got::Module(_) | Got::Code(_))
    }
    fn show(&self) -> String {
        match self {
            Got::Module(m) => format!("a grammar with {} rules", m.rules.len()),
            Got::Code(c) => format!("code of {} bytes", c.len()),
            Got::Error(e) => format!("error: {e}"),
            Got::Panic(e) => format!("panic: {e}"),
        }
    }
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}

/// Runs the code under test in the current thread, on the given storage.
fn execute(how: How, root: &str, root_spelled: &str, more: &[String], text: Option<String>, w: World) -> (Got, World) {
    let root = root.to_string();
    vfs::with_world(w, || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match how {
            How::Parse => {
                // The caller reads the root itself, like the derive does.
                let text = match std::fs::read_to_string(&root) {
                    Ok(t) => t,
                    Err(e) => return Got::Error(format!("root: {e}")),
                };
                match parser::parse(&text, &std::path::PathBuf::from(root_spelled)) {
                    Ok(m) => Got::Module(m),
                    Err(e) => Got::Error(e.to_string()),
                }
            }
            How::Derive | How::Inline => {
                let mut input = String::new();
                match how {
                    How::Inline => input.push_str(&format!("#[grammar_inline = {:?}]\n", text.unwrap_or_default())),
                    _ => input.push_str(&format!("#[grammar = {root_spelled:?}]\n")),
                }
                for m in more {
                    if m.starts_with('#') {
                        input.push_str(m);
                        continue;
                    }
                    input.push_str(&format!("#[grammar = {m:?}]\n"));
                }
                input.push_str("struct Parser;");
                let ts = proc_macro2::TokenStream::from_str(&input).expect("attribute");
                Got::Code(pest3_generator::typed::derive_typed_parser(ts, true, true).to_string())
            }
        }));
        match r {
            Ok(g) => g,
            Err(e) => Got::Panic(panic_text(e)),
        }
    })
}

/// The same on a fresh thread (whose hash seeds come from the simulation).
fn on_thread<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, f).expect("thread").join().expect("simulator thread"))
}

struct SendWorld(World);
// A world without a hook holds no thread-bound data.
unsafe impl Send for SendWorld {}
struct SendOut((Got, World));
unsafe impl Send for SendOut {}

fn text_of(c: &Case) -> Option<String> {
    (c.how == How::Inline).then(|| match &c.files[&c.root] {
        Body::Text(s) => s.clone(),
        Body::Bytes(b) => String::from_utf8_lossy(b).into_owned(),
    })
}

fn run_on(c: &Case, w: World) -> (Got, World) {
    let w = SendWorld(w);
    let text = text_of(c);
    let o = on_thread(move || {
        let w = w;
        SendOut(execute(c.how, &c.root, &c.root_spelled, &c.more, text, w.0))
    });
    o.0
}

fn world(c: &Case) -> World {
    let mut w = World::new(disk(c));
    w.faults = c.faults.clone();
    w.changes = changes(c);
    w.policy = c.policy.clone();
    w.hash_seed = c.hash_seed;
    w
}

/// Everything below the root's own text that was read: place -> distinct complete contents.
fn versions(opened: &[Opened]) -> BTreeMap<String, Vec<Vec<u8>>> {
    let mut v: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
    for o in opened {
        let e = v.entry(o.place.clone()).or_default();
        if let Some(b) = o.complete() {
            if !e.iter().any(|x| x == b) {
                e.push(b.to_vec());
            }
        }
    }
    v
}

/// The reference loads the root text with a fixed content per place.
fn reference(root: &str, first: Option<&Vec<u8>>, read: &dyn Fn(&str) -> Result<Vec<u8>, String>) -> Result<Loaded, String> {
    // The caller reads the root; an import chain that leads back to it may see a later version.
    let text = match first {
        Some(b) => b.clone(),
        None => read(root)?,
    };
    let text = String::from_utf8(text).map_err(|_| "the root is not text".to_string())?;
    gram::load(&text, root, &mut |p| String::from_utf8(read(p)?).map_err(|_| "not text".to_string()))
}

/// One content per place, over all combinations of the contents that were delivered (bounded).
fn assignments(v: &BTreeMap<String, Vec<Vec<u8>>>) -> Vec<BTreeMap<String, Vec<u8>>> {
    let mut out = vec![BTreeMap::new()];
    for (p, c) in v {
        if c.is_empty() {
            continue;
        }
        let mut next = vec![];
        for a in &out {
            for b in c {
                let mut a: BTreeMap<String, Vec<u8>> = a.clone();
                a.insert(p.clone(), b.clone());
                next.push(a);
            }
        }
        next.truncate(64);
        out = next;
    }
    out
}

fn viol(class: &str, detail: String) -> Option<Violation> {
    Some(Violation { class: class.into(), detail })
}

fn describe(c: &Case) -> String {
    let mut s = String::new();
    for (p, b) in &c.files {
        match b {
            Body::Text(t) => s.push_str(&format!("--- {p}\n{t}\n")),
            Body::Bytes(b) => s.push_str(&format!("--- {p} ({} bytes, not text)\n", b.len())),
        }
    }
    if !c.denied.is_empty() {
        s.push_str(&format!("denied: {:?}\n", c.denied));
    }
    if !c.faults.is_empty() || c.policy != Policy::default() {
        s.push_str(&format!("faults: {:?} {:?}\n", c.faults, c.policy));
    }
    for (n, p, b) in &c.changes {
        s.push_str(&format!("before storage call {n}: {p} becomes {b:?}\n"));
    }
    s.push_str(&format!("{:?} with {:?} {:?}\n", c.how, c.root_spelled, c.more));
    s
}

fn more_roots(c: &Case) -> impl Iterator<Item = &String> {
    c.more.iter().filter(|m| !m.starts_with('#'))
}

fn roots(c: &Case) -> Vec<String> {
    let mut v = vec![];
    if c.how != How::Inline {
        v.push(c.root.clone());
    }
    for m in more_roots(c) {
        v.push(vfs::normal(&format!("{MANIFEST}/{m}")));
    }
    v
}

/// Whether the recorded history contains a reason for failing that the storage gave.
fn storage_failed(c: &Case, w: &World) -> bool {
    if c.faults.is_empty() && c.denied.is_empty() && c.changes.is_empty() {
        return false;
    }
    w.opened.iter().any(|o| o.failed && o.errno != Some(libc::EINTR)) || w.fired.contains_key("metadata failure") || w.unresolved > 0
}

/// Reads as the reference may see them: what was delivered, else what is on disk.
fn reader<'a>(a: &'a BTreeMap<String, Vec<u8>>, w: &'a World) -> impl Fn(&str) -> Result<Vec<u8>, String> + 'a {
    move |p: &str| {
        let on_disk = vfs::resolve(&w.disk, p).map_err(|e| format!("error {e}"));
        let p = vfs::normal(p);
        match a.get(&p) {
            Some(b) if on_disk.is_ok() || w.fired.contains_key("file changed during the load") => Ok(b.clone()),
            Some(_) => Err("the path does not lead there".into()),
            None if w.opened.iter().any(|o| o.place == p) => Err("could not be read in full".into()),
            None => {
                on_disk?;
                w.disk.files.get(&p).filter(|_| !w.disk.denied.contains_key(&p)).cloned().ok_or("no such file".to_string())
            }
        }
    }
}

fn inline_first(c: &Case, v: &mut BTreeMap<String, Vec<Vec<u8>>>) {
    if c.how == How::Inline {
        v.insert(c.root.clone(), vec![c.files[&c.root].bytes()]);
    }
}

/// Faulted load against the reference over what the storage delivered.
/// Returns the reference grammar when the load succeeded as it should.
fn judge_load(c: &Case, got: &Got, w: &World) -> Result<Option<Loaded>, Option<Violation>> {
    let mut v = versions(&w.opened);
    inline_first(c, &mut v);
    let asg = assignments(&v);
    let refs: Vec<Result<Loaded, String>> = asg.iter().map(|a| reference(&c.root, v.get(&c.root).and_then(|x| x.first()), &reader(a, w))).collect();
    match got {
        Got::Panic(p) if c.how == How::Parse => {
            Err(viol("the load panicked instead of reporting an error", format!("{}\n{p}\nreference: {:?}", describe(c), refs[0].as_ref().err())))
        }
        Got::Error(_) | Got::Panic(_) => {
            if storage_failed(c, w) || refs.iter().any(|r| r.is_err()) || more_roots(c).next().is_some() {
                Ok(None)
            } else if c.how != How::Parse && delivered(c, w).is_none_or(|calm| !run_on(c, calm).0.ok()) {
                // The generator cannot express this grammar, whatever the storage does.
                Ok(None)
            } else {
                Err(viol("the load failed although every file could be read in full and is correct", format!("{}\n{}", describe(c), got.show())))
            }
        }
        Got::Module(m) => {
            let mut why = String::new();
            for r in refs {
                match r {
                    Ok(l) => match real::differs(m, &l) {
                        None => return Ok(Some(l)),
                        Some(d) => why = d,
                    },
                    Err(e) => why = format!("the load should have failed: {e}"),
                }
            }
            let class = if why.starts_with("the load should") { "a load succeeded that should have failed" } else { "the loaded grammar is not the one stored in the files" };
            Err(viol(class, format!("{}\n{why}", describe(c))))
        }
        Got::Code(_) => {
            let mut why = String::new();
            for r in refs {
                match r {
                    Ok(l) => return Ok(Some(l)),
                    Err(e) => why = format!("the load should have failed: {e}"),
                }
            }
            Err(viol("a load succeeded that should have failed", format!("{}\n{why}", describe(c))))
        }
    }
}

/// A storage that simply holds what was delivered.
fn delivered(c: &Case, w: &World) -> Option<World> {
    let v = versions(&w.opened);
    if v.values().any(|x| x.len() > 1) {
        return None;
    }
    let mut d = Disk { files: w.disk.files.clone(), dirs: c.dirs.clone(), denied: BTreeMap::new() };
    for (p, x) in v {
        match x.into_iter().next() {
            Some(b) => {
                d.files.insert(p, b);
            }
            None => {
                d.files.remove(&p);
            }
        }
    }
    let mut n = World::new(d);
    n.hash_seed = c.hash_seed ^ 0x55;
    Some(n)
}

fn healthy(c: &Case) -> World {
    let mut n = World::new(disk(c));
    n.disk.denied.clear();
    n.hash_seed = c.hash_seed ^ 0xaa;
    n
}

/// Panic text of the generator for grammars it cannot express; not a matter of storage.
fn same(a: &Got, b: &Got) -> bool {
    match (a, b) {
        (Got::Code(x), Got::Code(y)) => x == y,
        (Got::Code(_), _) | (_, Got::Code(_)) => false,
        _ => a.ok() == b.ok(),
    }
}

fn opens_of(w: &World) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    for o in &w.opened {
        *m.entry(o.place.clone()).or_insert(0) += 1;
    }
    m
}

struct Load;

impl Load {
    fn c09(&self, c: &Case, out: &mut RunResult) -> Option<Violation> {
        let (got, w) = run_on(c, world(c));
        note(out, &w, &got);
        if w.leaked() > 0 {
            return viol("a file stays open after the load", format!("{}\n{} descriptors", describe(c), w.leaked()));
        }
        let l = match judge_load(c, &got, &w) {
            Ok(l) => l,
            Err(v) => return v,
        };
        if let (Got::Code(code), Some(_)) = (&got, &l) {
            if let Some(clean) = delivered(c, &w) {
                let (want, _) = run_on(c, clean);
                if !matches!(&want, Got::Code(x) if x == code) {
                    return viol("the generated code depends on how the storage delivered the files", format!("{}\ncalm storage: {}, here: {}", describe(c), want.show(), got.show()));
                }
            }
        }
        // Liveness: once the storage is healthy, the same load gives the full grammar, in the
        // same process and thread.
        let c2 = Case { faults: vec![], changes: vec![], policy: Policy::default(), denied: BTreeMap::new(), ..c.clone() };
        let text = text_of(c);
        let (a, b) = {
            let w1 = SendWorld(world(c));
            let w2 = SendWorld(healthy(c));
            let t1 = text.clone();
            let r = on_thread(move || {
                let (w1, w2) = (w1, w2);
                let a = execute(c.how, &c.root, &c.root_spelled, &c.more, t1, w1.0);
                let b = execute(c.how, &c.root, &c.root_spelled, &c.more, text, w2.0);
                (SendOut(a), SendOut(b))
            });
            (r.0 .0, r.1 .0)
        };
        if !same(&a.0, &got) {
            return viol("the same load under the same faults gave something else", format!("{}\n{} then {}", describe(c), got.show(), a.0.show()));
        }
        let (again, w2) = b;
        let refs = reference(&c2.root, None, &reader(&BTreeMap::new(), &healthy(c)));
        match (&again, &refs) {
            (Got::Module(m), Ok(l)) => {
                if let Some(d) = real::differs(m, l) {
                    return viol("a later load on healthy storage is not complete", format!("{}\n{d}", describe(c)));
                }
            }
            (Got::Module(_), Err(e)) | (Got::Code(_), Err(e)) => {
                return viol("a load succeeded that should have failed", format!("{}\nlater load, healthy storage: {e}", describe(c)));
            }
            (Got::Error(e), Ok(_)) | (Got::Panic(e), Ok(_)) if c.how == How::Parse => {
                return viol("a later load on healthy storage fails", format!("{}\n{e}", describe(c)));
            }
            (Got::Panic(e), Err(_)) if c.how == How::Parse => {
                return viol("the load panicked instead of reporting an error", format!("{}\nlater load, healthy storage: {e}", describe(c)));
            }
            (Got::Panic(_), Ok(_)) | (Got::Code(_), Ok(_)) => {
                // The generator itself decides whether it can express the grammar: a fresh
                // process-wide state must give the same answer.
                let (fresh, _) = run_on(&c2, healthy(c));
                if !same(&fresh, &again) {
                    return viol("a later load on healthy storage differs from a first load", format!("{}\n{} then {}", describe(c), fresh.show(), again.show()));
                }
            }
            _ => {}
        }
        out.steps += w2.calls;
        if refs.is_ok() {
            out.count("later load gave the full grammar", again.ok() as u64);
        }
        None
    }

    fn c10(&self, c: &Case, out: &mut RunResult) -> Option<Violation> {
        let mut w = world(c);
        w.limit = 6000;
        let (got, w) = run_on(c, w);
        note(out, &w, &got);
        if w.calls > w.limit {
            return viol("the load does not end", format!("{}\n{} storage calls", describe(c), w.calls));
        }
        if w.probes.is_empty() || c.faults.is_empty() {
            for (p, n) in opens_of(&w) {
                // The derive and the caller read the root themselves.
                if n > 1 && !roots(c).contains(&p) && !storage_failed(c, &w) && !w.fired.contains_key("interrupted call") {
                    return viol("a file is read more than once in one load", format!("{}\n{p}: {n} times", describe(c)));
                }
            }
        }
        match judge_load(c, &got, &w) {
            Ok(l) => {
                if let Some(l) = &l {
                    out.count("files loaded", l.files.len() as u64);
                    out.count("import links followed", l.files.values().chain([&l.root]).map(|m| m.imports.len() as u64).sum());
                }
                if got.ok() {
                    out.count("loads that succeeded", 1);
                } else {
                    out.count("loads that ended with an error", 1);
                }
                None
            }
            Err(v) => v,
        }
    }

    fn c11(&self, c: &Case, out: &mut RunResult) -> Option<Violation> {
        let (got, w) = run_on(c, world(c));
        note(out, &w, &got);
        let mut v = versions(&w.opened);
        inline_first(c, &mut v);
        let mut want: BTreeSet<String> = BTreeSet::new();
        let rs = roots(c);
        for o in &w.opened {
            // Files that could not be read (a fallback that is not there) influenced nothing.
            if o.complete().is_some() {
                want.insert(o.place.clone());
            }
        }
        match &got {
            Got::Module(m) => {
                want.remove(&c.root);
                let asg = assignments(&v);
                let l = match reference(&c.root, None, &reader(&asg[0], &w)) {
                    Ok(l) => l,
                    Err(_) => return None,
                };
                if asg.len() > 1 || real::differs(m, &l).is_some() {
                    // Judged by C10.
                    return None;
                }
                let mut have: BTreeSet<String> = m.dependencies.iter().map(|p| vfs::normal(&p.to_string_lossy())).collect();
                have.remove(&c.root);
                let reach = l.reach(&l.root);
                if reach != want {
                    return viol("files were read that no import leads to", format!("{}\nread {want:?}\nreachable {reach:?}", describe(c)));
                }
                if have != want {
                    return viol("the recorded dependencies are not the files read", format!("{}\nrecorded {have:?}\nread     {want:?}", describe(c)));
                }
                let mut bad = None;
                let mut n = 0;
                real::each(m, &l, &mut |sub, md, place| {
                    n += 1;
                    let mut have: BTreeSet<String> = sub.dependencies.iter().map(|p| vfs::normal(&p.to_string_lossy())).collect();
                    have.remove(place);
                    let mut want = l.reach(md);
                    want.remove(place);
                    if have != want && bad.is_none() {
                        bad = Some((place.to_string(), have, want));
                    }
                });
                out.count("nested dependency sets compared", n);
                out.count("dependencies compared", want.len() as u64);
                if let Some((p, have, want)) = bad {
                    return viol("the recorded dependencies of an imported grammar are not the files it was read from", format!("{}\n{p}: recorded {have:?}\nread     {want:?}", describe(c)));
                }
                None
            }
            Got::Code(code) => {
                let have: BTreeSet<String> = includes(code).into_iter().map(|p| vfs::normal(&p)).collect();
                want.extend(rs);
                out.count("include lists compared", 1);
                if have != want {
                    return viol("the generated code does not refer to exactly the files it was generated from", format!("{}\nincluded {have:?}\nread     {want:?}", describe(c)));
                }
                None
            }
            _ => {
                out.count("loads that ended with an error", 1);
                None
            }
        }
    }

    fn c12(&self, c: &Case, out: &mut RunResult) -> Option<Violation> {
        let calm = Case { others: vec![], process: false, faults: vec![], policy: Policy::default(), ..c.clone() };
        let (base, w0) = run_on(&calm, world(&calm));
        note(out, &w0, &base);
        // Alone, with other hash seeds, another clock and an awkward but harmless storage.
        let mut w = world(c);
        w.clock = 1_700_000_000_000_000_000 ^ (c.sched << 20);
        let (again, w) = run_on(c, w);
        note(out, &w, &again);
        if !same(&base, &again) {
            return viol("generation depends on hash seeds, the clock or the delivery of files", differ(c, &base, &again));
        }
        // After other derivations on the same thread.
        let elsewhere_kept = moved(&calm);
        let base_there = match &base {
            Got::Code(x) => Got::Code(relocate(x)),
            Got::Error(x) => Got::Error(relocate(x)),
            Got::Panic(x) => Got::Panic(relocate(x)),
            g => g.clone(),
        };
        let scene = |o: &Other| match &elsewhere_kept {
            Some(m) if o.moved => (m.clone(), true),
            _ => (c.clone(), false),
        };
        let before: Vec<&Other> = c.others.iter().filter(|o| o.before).collect();
        if !before.is_empty() {
            let text = text_of(c);
            let mk = |o: &Other| {
                let (c, there) = scene(o);
                let mut d = world(&c);
                if there {
                    d.package = Some(c"/vfs/cwd/h".into());
                    d.hash_seed = o.hash_seed;
                    return d;
                }
                if let Some(f) = &o.files {
                    d.disk.files = f.iter().map(|(k, v)| (k.clone(), v.bytes())).collect();
                }
                d.faults = o.faults.clone();
                d.policy = o.policy.clone();
                d.hash_seed = o.hash_seed;
                d
            };
            let ws: Vec<(SendWorld, Case, bool)> = before
                .iter()
                .map(|o| {
                    let (k, there) = scene(o);
                    (SendWorld(mk(o)), k, there)
                })
                .collect();
            let last = SendWorld(world(&calm));
            let due_there = &base_there;
            let r = on_thread(move || {
                let last = last;
                let mut ok = 0;
                let mut odd = None;
                for (w, k, there) in ws {
                    let g = execute(k.how, &k.root, &k.root_spelled, &k.more, text.clone(), w.0);
                    ok += g.0.ok() as u64;
                    if there && odd.is_none() && !same(due_there, &g.0) {
                        odd = Some(differ(&k, due_there, &g.0));
                    }
                }
                (SendOut(execute(c.how, &c.root, &c.root_spelled, &c.more, text.clone(), last.0)), ok, odd)
            });
            out.count("derivations for another package", before.iter().filter(|o| scene(o).1).count() as u64);
            if let Some(d) = r.2 {
                return viol("generation for one package depends on what was generated for another", d);
            }
            out.count("derivations before", before.len() as u64);
            out.count("derivations before that failed", before.len() as u64 - r.1);
            let (got, w) = r.0 .0;
            note(out, &w, &got);
            if !same(&base, &got) {
                return viol("generation depends on what was generated before", differ(c, &base, &got));
            }
        }
        // At the same time as others.
        let along: Vec<&Other> = c.others.iter().filter(|o| !o.before).collect();
        if !along.is_empty() {
            let n = along.len() + 1;
            let baton = Arc::new(Baton::new(n, c.sched));
            let text = text_of(c);
            let results: Vec<(Got, World)> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..n)
                    .map(|i| {
                        let baton = baton.clone();
                        let text = text.clone();
                        let o = if i == 0 { None } else { Some(along[i - 1].clone()) };
                        let (c, there) = o.as_ref().map_or((c.clone(), false), &scene);
                        std::thread::Builder::new()
                            .stack_size(8 << 20)
                            .spawn_scoped(s, move || {
                                baton.wait(i);
                                let c = &c;
                                let mut w = World::new(disk(c));
                                if there {
                                    w.package = Some(c"/vfs/cwd/h".into());
                                    w.hash_seed = c.hash_seed;
                                    w.policy = c.policy.clone();
                                } else if let Some(o) = &o {
                                    if let Some(f) = &o.files {
                                        w.disk.files = f.iter().map(|(k, v)| (k.clone(), v.bytes())).collect();
                                    }
                                    w.faults = o.faults.clone();
                                    w.policy = o.policy.clone();
                                    w.hash_seed = o.hash_seed;
                                } else {
                                    w.hash_seed = c.hash_seed;
                                    w.policy = c.policy.clone();
                                }
                                let b = baton.clone();
                                w.hook = Some(Rc::new(move || b.step(i)));
                                let (g, mut w) = execute(c.how, &c.root, &c.root_spelled, &c.more, text, w);
                                w.hook = None;
                                baton.leave(i);
                                SendOut((g, w))
                            })
                            .expect("thread")
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().expect("simulator thread").0).collect()
            });
            let (steps, switches, trace, forced) = baton.stats();
            out.count("scheduling decisions", steps);
            out.count("thread switches", switches);
            out.count("hand-overs forced by a blocked thread", forced);
            if forced == 0 {
                out.history = mix(out.history, trace);
            }
            for (i, (g, w)) in results.iter().enumerate() {
                note(out, w, g);
                if i == 0 {
                    if !same(&base, g) {
                        return viol("generation depends on what is generated at the same time", differ(c, &base, g));
                    }
                } else if scene(along[i - 1]).1 {
                    if !same(&base_there, g) {
                        return viol("generation for one package depends on what is generated for another", differ(c, &base_there, g));
                    }
                } else if along[i - 1].files.is_none() && along[i - 1].faults.is_empty() && !same(&base, g) {
                    return viol("generation depends on what is generated at the same time", differ(c, &base, g));
                }
            }
        }
        // In another process.
        if c.process {
            out.count("derivations in another process", 1);
            let h = match &base {
                Got::Code(x) => hash_str(x),
                _ => 0,
            };
            match elsewhere(c) {
                Some(x) if x == h => {}
                Some(_) => return viol("generation differs between processes", describe(c)),
                None => {}
            }
        }
        None
    }
}

fn elsewhere(c: &Case) -> Option<u64> {
    let f = std::env::temp_dir().join(format!("sim-c12-{}-{:x}.json", std::process::id(), c.sched));
    std::fs::write(&f, serde_json::to_string(c).ok()?).ok()?;
    let o = std::process::Command::new(std::env::current_exe().ok()?).arg("derive").arg(&f).output().ok()?;
    let _ = std::fs::remove_file(&f);
    u64::from_str_radix(String::from_utf8(o.stdout).ok()?.trim(), 16).ok()
}

fn differ(c: &Case, a: &Got, b: &Got) -> String {
    let mut s = describe(c);
    match (a, b) {
        (Got::Code(x), Got::Code(y)) => {
            let i = x.bytes().zip(y.bytes()).position(|(p, q)| p != q).unwrap_or(x.len().min(y.len()));
            let cut = |t: &str| {
                let lo = (0..=i.saturating_sub(60)).rev().find(|k| t.is_char_boundary(*k)).unwrap_or(0);
                let hi = (i + 80..t.len()).find(|k| t.is_char_boundary(*k)).unwrap_or(t.len());
                t[lo..hi].to_string()
            };
            s.push_str(&format!("first difference at {i}:\n{}\n{}", cut(x), cut(y)));
        }
        _ => s.push_str(&format!("{} / {}", a.show(), b.show())),
    }
    s
}

/// The strings of `include_str!(..)` in generated code.
fn includes(code: &str) -> Vec<String> {
    let mut v = vec![];
    let mut rest = code;
    while let Some(i) = rest.find("include_str !") {
        rest = &rest[i + 13..];
        let Some(a) = rest.find('"') else { break };
        let Some(b) = rest[a + 1..].find('"') else { break };
        v.push(rest[a + 1..a + 1 + b].to_string());
        rest = &rest[a + b + 2..];
    }
    v
}

fn note(out: &mut RunResult, w: &World, got: &Got) {
    for (k, n) in &w.fired {
        out.count(k, *n);
    }
    out.count("storage calls", w.calls);
    out.count("files opened", w.opened.len() as u64);
    out.count("clock readings by the code", w.clock_reads);
    out.count("hash seeds drawn", w.randoms);
    out.steps += w.calls;
    out.history = mix(mix(out.history, w.trace), got.ok() as u64);
    if let Got::Code(c) = got {
        out.history = mix(out.history, hash_str(c));
    }
    if let Got::Error(e) | Got::Panic(e) = got {
        out.history = mix(out.history, e.len() as u64);
    }
}

// ---------------------------------------------------------------------------------------------
// Scenarios

const ERRNOS: [i32; 7] = [libc::EIO, libc::ENOENT, libc::EACCES, libc::EMFILE, libc::ENFILE, libc::EISDIR, libc::ESTALE];

fn mutate(text: &mut String, r: &mut Rng) {
    let n = 1 + r.below(2);
    for _ in 0..n {
        if r.chance(1, 2) {
            if let Some(t) = gram::misspell(text, r) {
                *text = t;
                continue;
            }
        }
        let b: Vec<usize> = text.char_indices().map(|x| x.0).chain([text.len()]).collect();
        let i = r.below(b.len());
        match r.below(5) {
            0 if i + 1 < b.len() => {
                let j = (i + 1 + r.below(4)).min(b.len() - 1);
                text.replace_range(b[i]..b[j], "");
            }
            1 => text.truncate(b[i]),
            2 if i + 1 < b.len() => {
                let s = *r.pick(&["(", ")", "{", "}", "|", "~", "^", "-", "\"", "'", "_", "1", " ", "\n", "é"]);
                text.replace_range(b[i]..b[i + 1], s);
            }
            _ => {
                let s = *r.pick(&[
                    "(", ")", "{", "}", "|", "~", "^", "-", "\"", "'", "_", "0", "9", " ", "\n", "\r", "//", "///x\n", "/*", "*/", "use ", "as ", "in ", "a = b\n",
                    "{0}", "{2..1}", "{3}", "[1..]", "\\x80", "\\u{d800}", "99999999999999999999", "&", "!", "?", "*", "+", "é", "::", "super", "#", "r#\"x\"#", "'\"'..'z'", "//! d\n",
                    "=", ",", "..", "i\"A\"", "/// d\n",
                ]);
                text.insert_str(b[i], s);
            }
        }
    }
}

fn print_all(p: &gram::Proj, r: &mut Rng, fancy: bool) -> BTreeMap<String, Body> {
    p.files.iter().map(|(k, f)| (k.clone(), Body::Text(gram::print(f, r, fancy)))).collect()
}

fn policy(r: &mut Rng) -> Policy {
    Policy {
        short: if r.chance(1, 2) { *r.pick(&[1, 2, 3, 7, 16, 31, 64, 200]) } else { 0 },
        eintr_every: if r.chance(1, 3) { r.range(2, 6) as u64 } else { 0 },
        size: if r.chance(1, 3) { Some(*r.pick(&[0, 1, 5, 64, 1000, 70_000])) } else { None },
    }
}

fn case_of(prop: &str, seed: u64) -> Case {
    let r = &mut Rng::new(seed);
    let derive = match prop {
        "C12" => true,
        "C09" => r.chance(1, 5),
        "C10" => r.chance(1, 12),
        _ => r.chance(1, 3),
    };
    let cycles = prop == "C10" && r.chance(1, 8);
    let o = gram::Opts { max_files: if derive { 4 } else { 7 }, max_rules: if derive { 3 } else { 4 }, cycles, valid: derive, inline_paths: true };
    let p = gram::gen_proj(r, &o);
    let fancy = r.chance(4, 5);
    let files = print_all(&p, r, fancy);
    let how = if !derive {
        How::Parse
    } else if r.chance(1, 5) {
        How::Inline
    } else {
        How::Derive
    };
    let root_spelled = match how {
        How::Parse => r.pick(&["g/root.pest", "/vfs/cwd/g/root.pest", "./g/root.pest", "g/root.pest/_.rs", "/vfs/cwd/g/root.pest/_.rs", "/vfs/cwd/./g/root.pest"]).to_string(),
        _ => r.pick(&["root.pest", "./root.pest", "../g/root.pest"]).to_string(),
    };
    let mut c = Case {
        how,
        files,
        root: p.root.clone(),
        root_spelled,
        more: vec![],
        denied: BTreeMap::new(),
        dirs: [MANIFEST.to_string(), "/vfs/cwd/g/sub".to_string(), "/vfs/cwd/g/sub/deep".to_string(), "/vfs/lib".to_string(), "/vfs/lib.v1".to_string(), "/vfs/cwd/g/pest".to_string(), "/vfs/cwd/g/src".to_string()].into(),
        faults: vec![],
        policy: Policy::default(),
        changes: vec![],
        hash_seed: r.next(),
        others: vec![],
        sched: r.next(),
        process: false,
    };
    if derive && r.chance(1, 3) {
        for _ in 0..1 + r.below(2) {
            c.more.push(r.pick(&["#[no_pair]", "#[no_span = true]", "#[no_warnings]", "#[box_all_rules]", "#[rules_mod = \"nodes\"]", "#[box_all_rules = false]"]).to_string());
        }
    }
    let names: Vec<String> = c.files.keys().cloned().collect();
    let n = names.len() as u64;
    let calls = 6 * n + 2;
    match prop {
        "C09" => {
            if r.chance(1, 2) {
                c.policy = policy(r);
            }
            // What is wrong for good.
            if r.chance(1, 2) {
                let victim = r.pick(&names).clone();
                match r.below(8) {
                    0 | 1 if victim != c.root || c.how != How::Inline => {
                        c.files.remove(&victim);
                        if c.how == How::Inline && victim == c.root {
                            unreachable!();
                        }
                    }
                    2 if c.how != How::Inline || victim != c.root => {
                        c.denied.insert(victim, *r.pick(&ERRNOS));
                    }
                    3 if c.how != How::Inline || victim != c.root => {
                        let mut b = c.files[&victim].bytes();
                        let at = r.below(b.len() + 1);
                        let cut = *r.pick(&[0xff_u8, 0xc3, 0x80, 0xf0]);
                        b.insert(at, cut);
                        c.files.insert(victim, Body::of(b));
                    }
                    _ => {
                        if let Body::Text(mut t) = c.files[&victim].clone() {
                            mutate(&mut t, r);
                            c.files.insert(victim, Body::Text(t));
                        }
                    }
                }
                if !c.files.contains_key(&c.root) && c.how == How::Inline {
                    c.files.insert(c.root.clone(), Body::Text("a = \"a\"\n".into()));
                }
            }
            // Files nobody asked for, where a confused loader might look.
            for _ in 0..if r.chance(1, 3) { 1 + r.below(3) } else { 0 } {
                let base = r.pick(&names).rsplit('/').next().unwrap().to_string();
                let dir = *r.pick(&["/vfs/cwd/g/src", "/vfs/cwd/g/src", "/vfs/cwd", "/vfs/cwd/g", "/vfs/cwd/g/sub", "/vfs", "/vfs/lib"]);
                let at = format!("{dir}/{base}");
                if !names.contains(&at) {
                    c.files.insert(at, Body::Text("decoy = \"decoy\"\n".into()));
                }
            }
            // What goes wrong while loading.
            for _ in 0..r.below(4) {
                let reads = if c.policy.short > 0 { calls * 6 } else { calls };
                let at = r.below(reads as usize) as u64;
                let f = match r.below(8) {
                    0 => Fault::Eintr,
                    1 | 2 => Fault::Short(*r.pick(&[1, 2, 5, 17, 40])),
                    3 => Fault::Eof,
                    4 => Fault::Size(*r.pick(&[0, 1, 9, 4096, 300_000])),
                    _ => Fault::Errno(*r.pick(&ERRNOS)),
                };
                c.faults.push((at, f));
            }
        }
        "C10" => {
            if r.chance(1, 3) {
                c.policy = policy(r);
            }
            for _ in 0..if r.chance(1, 2) { 1 + r.below(2) } else { 0 } {
                let victim = r.pick(&names).clone();
                if victim == c.root && c.how == How::Inline {
                    continue;
                }
                let at = r.below(calls as usize) as u64;
                let body = match r.below(6) {
                    0 => None,
                    1 => {
                        let Body::Text(mut t) = c.files[&victim].clone() else { continue };
                        mutate(&mut t, r);
                        Some(Body::Text(t))
                    }
                    // Another version with the same imports.
                    _ => {
                        let mut f = p.files[&victim].clone();
                        for it in f.items.iter_mut() {
                            if let gram::Item::Rule(x) = it {
                                if r.chance(1, 2) {
                                    x.expr = gram::Expr::Str(format!("v{}", r.below(9)));
                                }
                            }
                        }
                        f.docs.push("changed".into());
                        Some(Body::Text(gram::print(&f, r, fancy)))
                    }
                };
                c.changes.push((at, victim, body));
            }
            if r.chance(1, 10) {
                let victim = r.pick(&names).clone();
                if let Body::Text(mut t) = c.files[&victim].clone() {
                    mutate(&mut t, r);
                    c.files.insert(victim, Body::Text(t));
                }
            }
        }
        "C11" => {
            if r.chance(1, 3) {
                c.policy = policy(r);
            }
            if c.how != How::Parse && r.chance(1, 3) {
                // A second root below the manifest directory.
                let below: Vec<&String> = names.iter().filter(|x| x.starts_with("/vfs/cwd/g/") && **x != c.root).collect();
                if !below.is_empty() {
                    let x = *r.pick(&below);
                    c.more.push(x["/vfs/cwd/g/".len()..].to_string());
                }
            }
            if c.how == How::Derive && r.chance(1, 8) {
                // The old default location.
                let t = c.files[&c.root].clone();
                c.files.remove(&c.root);
                let moved = "/vfs/cwd/g/src/root.pest".to_string();
                c.files.insert(moved.clone(), t);
                c.root = moved;
                c.root_spelled = "root.pest".into();
                // Its imports now lead elsewhere: keep copies there.
                let copies: Vec<(String, Body)> = c
                    .files
                    .iter()
                    .filter(|(k, _)| k.starts_with("/vfs/cwd/g/") && !k.starts_with("/vfs/cwd/g/src"))
                    .map(|(k, v)| (k.replace("/vfs/cwd/g/", "/vfs/cwd/g/src/"), v.clone()))
                    .collect();
                let up: Vec<(String, Body)> = c
                    .files
                    .iter()
                    .filter(|(k, _)| k.starts_with("/vfs/cwd/m") || k.starts_with("/vfs/lib"))
                    .map(|(k, v)| (k.replacen("/vfs/cwd/", "/vfs/cwd/g/", 1).replacen("/vfs/lib/", "/vfs/cwd/lib/", 1), v.clone()))
                    .collect();
                for (k, v) in copies.into_iter().chain(up) {
                    c.files.entry(k).or_insert(v);
                }
                for d in ["/vfs/cwd/g/src/sub", "/vfs/cwd/g/src/sub/deep", "/vfs/cwd/lib"] {
                    c.dirs.insert(d.to_string());
                }
            }
        }
        _ => {
            c.policy = policy(r);
            for _ in 0..1 + r.below(3) {
                let before = r.chance(1, 2);
                let files = match r.below(3) {
                    0 => None,
                    1 => {
                        // Same places, other contents.
                        let p2 = gram::gen_proj(r, &o);
                        Some(print_all(&p2, r, fancy))
                    }
                    _ => {
                        let mut f = p.clone();
                        for x in f.files.values_mut() {
                            for it in x.items.iter_mut() {
                                if let gram::Item::Rule(x) = it {
                                    if r.chance(1, 3) {
                                        x.expr = gram::Expr::Str("other".into());
                                    }
                                }
                            }
                        }
                        Some(print_all(&f, r, fancy))
                    }
                };
                let faults = if r.chance(1, 3) { vec![(r.below(calls as usize) as u64, Fault::Errno(*r.pick(&ERRNOS)))] } else { vec![] };
                c.others.push(Other { before, files, hash_seed: r.next(), policy: if r.chance(1, 3) { policy(r) } else { Policy::default() }, faults, moved: r.chance(1, 3) });
            }
            c.process = r.chance(1, 25);
        }
    }
    c
}

/// The derive looks in `src/` for a root that is not there.
fn rerooted(c: &Case) -> Case {
    let mut d = c.clone();
    let alt = vfs::normal(&format!("{MANIFEST}/src/{}", c.root_spelled));
    if c.how == How::Derive && !c.files.contains_key(&c.root) && c.files.contains_key(&alt) {
        d.root = alt;
    }
    d
}

fn run_case(prop: &str, c: &Case) -> RunResult {
    let whole = rerooted(c);
    let c = &whole;
    let mut out = RunResult { history: 0x77, ..Default::default() };
    out.violation = match prop {
        "C09" => Load.c09(c, &mut out),
        "C10" => Load.c10(c, &mut out),
        "C11" => Load.c11(c, &mut out),
        _ => Load.c12(c, &mut out),
    };
    for d in c.denied.values() {
        let _ = d;
        out.count("permanently unreadable file", 1);
    }
    if c.files.values().any(|b| matches!(b, Body::Bytes(_))) {
        out.count("file that is not text", 1);
    }
    out.nontrivial = out.counters.get("files opened").copied().unwrap_or(0) > 1;
    out.case = serde_json::to_value(c).unwrap();
    let names: Vec<&String> = c.files.keys().collect();
    out.sample = Some(format!(
        "{:?} {} with {} files {:?}, faults {:?}, policy {:?}, {} changes, {} other derivations",
        c.how,
        c.root_spelled,
        names.len(),
        names,
        c.faults,
        c.policy,
        c.changes.len(),
        c.others.len()
    ));
    out
}

impl Harness for Load {
    fn info(&self, prop: &str) -> Info {
        let base = Info {
            level: "seeded search over simulated executions, no coverage guarantee",
            rule: "one evaluation = one generated project loaded or derived under one seeded fault plan (C12: with its companions); distinct non-trivial = distinct hashes of the storage-call history plus outcome among runs that opened at least two files",
            real: &["pest3_meta::parser (import resolution, cache, grammar parsing)", "pest3_generator::typed (derive, C09 C11 C12 and some of C10)", "std::fs, std::collections::HashMap"],
            stub: &["storage below libc (open, read, stat, realpath, lseek, close, getcwd)", "getrandom (hash seeds)", "clock_gettime", "thread scheduling (baton, C12)"],
            assumptions: &[
                "storage is reached through the libc entry points open/openat/read/pread/readv/fstat/statx/stat/access/realpath/lseek/close/getcwd",
                "module paths are compared lexically: the simulated disk has no symbolic links",
                "the derive reports errors by panicking, which the compiler turns into a compile error",
                "nesting of parentheses and calls in generated grammars is at most 4 (the meta parser is exponential in it)",
            ],
            step_unit: "storage calls",
            fault_kinds: &[],
            quick_runs: 150_000,
            thorough_runs: 2_000_000,
            quick_cap: 100,
            thorough_cap: 700,
            workers: 8,
        };
        match prop {
            "C09" => Info {
                fault_kinds: &["interrupted call", "short read", "misleading size", "open failure", "read failure", "file cut while being read", "metadata failure", "permanently unreadable file", "file that is not text"],
                ..base
            },
            "C10" => Info { quick_runs: 300_000, fault_kinds: &["file changed during the load", "interrupted call", "short read", "misleading size"], ..base },
            "C11" => Info { fault_kinds: &["interrupted call", "short read", "misleading size"], quick_runs: 150_000, ..base },
            _ => Info {
                fault_kinds: &["interrupted call", "short read", "misleading size", "open failure", "read failure", "hash seeds drawn", "thread switches", "derivations before that failed", "derivations in another process"],
                quick_runs: 20_000,
                ..base
            },
        }
    }
    fn run(&self, prop: &str, run_seed: u64, _index: u64) -> RunResult {
        run_case(prop, &case_of(prop, run_seed))
    }
    fn replay(&self, prop: &str, case: &Value) -> RunResult {
        run_case(prop, &serde_json::from_value::<Case>(case.clone()).expect("case"))
    }
    fn size(&self, _prop: &str, case: &Value) -> usize {
        let c: Case = serde_json::from_value(case.clone()).expect("case");
        let ch: usize = c.changes.iter().map(|x| 30 + x.2.as_ref().map_or(0, |b| b.len())).sum();
        let ot: usize = c.others.iter().map(|o| 60 + 20 * o.faults.len() + o.files.as_ref().map_or(0, |f| f.values().map(|b| b.len() + 20).sum())).sum();
        let fa: usize = c.faults.iter().map(|f| 40 + (f.0 as usize).min(20)).sum();
        c.files.values().map(|b| b.len() + 20).sum::<usize>()
            + ch
            + ot
            + fa
            + c.denied.len() * 20
            + (c.policy.short > 0) as usize * 20
            + (c.policy.eintr_every > 0) as usize * 20
            + c.policy.size.is_some() as usize * 20
            + c.more.len() * 30
            + c.process as usize * 10
            + (c.how != How::Parse) as usize * 5
    }
    fn shrink(&self, _prop: &str, case: &Value) -> Vec<Value> {
        let c: Case = serde_json::from_value(case.clone()).expect("case");
        let mut v: Vec<Case> = vec![];
        for i in 0..c.others.len() {
            let mut d = c.clone();
            d.others.remove(i);
            v.push(d);
            let mut d = c.clone();
            d.others[i].faults.clear();
            d.others[i].policy = Policy::default();
            v.push(d);
            let mut d = c.clone();
            d.others[i].files = None;
            v.push(d);
        }
        for i in 0..c.faults.len() {
            let mut d = c.clone();
            d.faults.remove(i);
            v.push(d);
        }
        for i in 0..c.changes.len() {
            let mut d = c.clone();
            d.changes.remove(i);
            v.push(d);
        }
        let p = &c.policy;
        if p.short > 0 {
            v.push(Case { policy: Policy { short: 0, ..p.clone() }, ..c.clone() });
        }
        if p.eintr_every > 0 {
            v.push(Case { policy: Policy { eintr_every: 0, ..p.clone() }, ..c.clone() });
        }
        if p.size.is_some() {
            v.push(Case { policy: Policy { size: None, ..p.clone() }, ..c.clone() });
        }
        for i in 0..c.more.len() {
            let mut d = c.clone();
            d.more.remove(i);
            v.push(d);
        }
        if c.process {
            v.push(Case { process: false, ..c.clone() });
        }
        for k in c.files.keys() {
            if *k != c.root {
                let mut d = c.clone();
                d.files.remove(k);
                v.push(d);
            }
        }
        let cut = |t: &str| {
            let mut out: Vec<String> = vec![];
            let lines: Vec<&str> = t.split_inclusive('\n').collect();
            let mut w = lines.len() / 2;
            while w >= 1 {
                let mut i = 0;
                while i + w <= lines.len() {
                    out.push([&lines[..i], &lines[i + w..]].concat().concat());
                    i += w;
                }
                w /= 2;
            }
            let b: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
            let mut w = (b.len() / 2).min(64);
            while w >= 1 {
                let mut i = 0;
                while i + w < b.len() {
                    out.push(format!("{}{}", &t[..b[i]], &t[b[i + w]..]));
                    i += (w / 2).max(1);
                }
                w /= 2;
            }
            out
        };
        for (k, b) in &c.files {
            if let Body::Text(t) = b {
                for t in cut(t) {
                    let mut d = c.clone();
                    d.files.insert(k.clone(), Body::Text(t));
                    v.push(d);
                }
            }
        }
        for (i, ch) in c.changes.iter().enumerate() {
            if let Some(Body::Text(t)) = &ch.2 {
                for t in cut(t) {
                    let mut d = c.clone();
                    d.changes[i].2 = Some(Body::Text(t));
                    v.push(d);
                }
            }
        }
        for (i, f) in c.faults.iter().enumerate() {
            for at in [0, f.0 / 2, f.0.saturating_sub(1)] {
                if at < f.0 {
                    let mut d = c.clone();
                    d.faults[i].0 = at;
                    v.push(d);
                }
            }
        }
        v.into_iter().map(|c| serde_json::to_value(c).unwrap()).collect()
    }
    fn generate(&self, prop: &str, run_seed: u64, _index: u64) -> Value {
        serde_json::to_value(case_of(prop, run_seed)).unwrap()
    }
    fn extra(&self, _prop: &str) -> serde_json::Map<String, Value> {
        let mut m = serde_json::Map::new();
        m.insert("storage_calls_are_the_clock".into(), json!(true));
        m
    }
}

fn main() {
    std::env::set_var("CARGO_MANIFEST_DIR", MANIFEST);
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("derive") {
        quiet_panics();
        let c: Case = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("case")).expect("case");
        let calm = Case { others: vec![], process: false, faults: vec![], policy: Policy::default(), ..c };
        let (g, _) = run_on(&calm, world(&calm));
        let h = match g {
            Got::Code(x) => hash_str(&x),
            _ => 0,
        };
        println!("{h:016x}");
        return;
    }
    sim::sup::main(&Load)
}
