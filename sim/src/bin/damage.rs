//! Simulator for damaged grammars: property C15. A project is stored, damaged (torn and lost
//! writes, stale blocks, flipped bytes, lost and swapped files, careless edits), derived, healed
//! and derived again, in one process. The real loader and generator run unmodified on the
//! simulated storage of `sim::vfs`; whether a damaged grammar still means something is decided
//! by a reference that shares no code with them.
use serde::{Deserialize, Serialize};
use serde_json::Value;
use sim::egram;
use sim::emodel::{each_path, Project, Source, Target, G};
use sim::gram::{self, Args, Expr, FileG, Item, Link, Tr};
use sim::rng::{hash_str, mix, Rng};
use sim::sup::*;
use sim::vfs::{self, Disk, Policy, World};
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

const MANIFEST: &str = "/vfs/cwd/g";

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
enum Body {
    Text(String),
    Bytes(Vec<u8>),
}
impl Body {
    fn of(b: Vec<u8>) -> Self {
        match String::from_utf8(b) {
            Ok(s) => Body::Text(s),
            Err(e) => Body::Bytes(e.into_bytes()),
        }
    }
    fn bytes(&self) -> &[u8] {
        match self {
            Body::Text(s) => s.as_bytes(),
            Body::Bytes(b) => b,
        }
    }
}

/// What is stored at one moment.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct State {
    files: BTreeMap<String, Body>,
    sources: Vec<Source>,
    #[serde(default)]
    policy: Policy,
    #[serde(default)]
    hash_seed: u64,
    /// What happened since the first state.
    #[serde(default)]
    faults: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct Case {
    rules_mod: Option<String>,
    #[serde(default)]
    no_pair: bool,
    /// The first one is whole; it comes back at the end.
    states: Vec<State>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
enum Got {
    Code(String),
    Refused(String),
}
impl Got {
    fn show(&self) -> String {
        match self {
            Got::Code(c) => format!("code of {} bytes", c.len()),
            Got::Refused(e) => format!("refused: {e}"),
        }
    }
}

fn derive(c: &Case, s: &State) -> (Got, World) {
    let mut input = String::new();
    for x in &s.sources {
        match x {
            Source::File(f) => input.push_str(&format!("#[grammar = {f:?}]\n")),
            Source::Inline(t) => input.push_str(&format!("#[grammar_inline = {t:?}]\n")),
        }
    }
    if let Some(m) = &c.rules_mod {
        input.push_str(&format!("#[rules_mod = {m:?}]\n"));
    }
    if c.no_pair {
        input.push_str("#[no_pair]\n");
    }
    input.push_str("struct Parser;");
    let d = Disk {
        files: s.files.iter().map(|(k, v)| (format!("{MANIFEST}/{k}"), v.bytes().to_vec())).collect(),
        dirs: BTreeSet::from([MANIFEST.to_string()]),
        denied: BTreeMap::new(),
    };
    let mut w = World::new(d);
    w.policy = s.policy.clone();
    w.hash_seed = s.hash_seed;
    vfs::with_world(w, || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let ts = proc_macro2::TokenStream::from_str(&input).expect("attribute");
            pest3_generator::typed::derive_typed_parser(ts, true, true).to_string()
        }));
        match r {
            Ok(g) => Got::Code(g),
            Err(e) => Got::Refused(e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
        }
    })
}

// ---------------------------------------------------------------------------------------------
// Reference

#[derive(Clone, Debug, PartialEq, Eq)]
enum Verdict {
    Accept,
    /// Kind, details.
    Refuse(&'static str, String),
    Unknown(&'static str),
}

/// Parameters of built-in rules.
fn builtin(p: &[String], a: &Option<Args>) -> Result<(), Option<(&'static str, String)>> {
    let s: Vec<&str> = p.iter().map(|x| x.as_str()).collect();
    let shown = format!("pest::{}", s.join("::"));
    let err = |k: &'static str| Err(Some((k, shown.clone())));
    const PLAIN: [&str; 14] = [
        "soi", "eoi", "any", "newline", "ascii", "ascii_digit", "ascii_nonzero_digit", "ascii_bin_digit", "ascii_oct_digit", "ascii_hex_digit", "ascii_alpha_lower", "ascii_alpha_upper",
        "ascii_alpha", "ascii_alphanumeric",
    ];
    let plain = match s[..] {
        [] | ["stack"] | ["unicode"] => return err("a module is used as a rule"),
        [x] if PLAIN.contains(&x) => true,
        ["unicode", x] if pest3_core::unicode::unicode_property_names().any(|n| n.to_ascii_lowercase() == x) => true,
        ["stack", "peek"] => {
            return match a {
                Some(Args::Call(_)) => err("wrong arguments for a built-in rule"),
                _ => Ok(()),
            }
        }
        ["stack", "peek_all" | "drop" | "pop" | "pop_all"] => true,
        ["stack", "push"] => {
            return match a {
                Some(Args::Call(v)) if v.len() == 1 => Ok(()),
                _ => err("wrong arguments for a built-in rule"),
            }
        }
        _ => return err("a built-in rule that does not exist"),
    };
    match a {
        None => Ok(()),
        // Whether empty parentheses count as arguments is a matter of taste.
        Some(Args::Call(v)) if v.is_empty() => Err(None),
        _ if plain => err("wrong arguments for a built-in rule"),
        _ => Ok(()),
    }
}

struct Walk<'g> {
    g: &'g G,
    certain: Option<(&'static str, String)>,
    unknown: Option<&'static str>,
    /// Inlined rules that are expanded somewhere.
    called: BTreeSet<(usize, usize)>,
}
impl<'g> Walk<'g> {
    fn bad(&mut self, sure: bool, kind: &'static str, what: String) {
        if sure {
            self.certain.get_or_insert((kind, what));
        } else {
            self.unknown.get_or_insert("a mistake where it may have no effect");
        }
    }
    fn is_inlined(&self, k: usize, r: usize) -> bool {
        self.g.inlined.contains(&(k, r))
    }
    /// Whether an argument of an inlined rule stands anywhere in the expansion.
    fn keeps(&self, id: (usize, usize), arg: usize) -> bool {
        let rule = &self.g.insts[id.0].m.rules[id.1];
        fn find(w: &Walk, id: (usize, usize), e: &Expr, name: &str) -> bool {
            match e {
                Expr::Str(_) | Expr::Insens(_) | Expr::Range(..) => false,
                Expr::Path(p, a) => {
                    if p.len() == 1 && p[0] == name {
                        return true;
                    }
                    let Some(Args::Call(v)) = a else { return false };
                    if let Some(Target::Rule(k, r)) = w.g.resolve(id.0, p) {
                        if w.is_inlined(k, r) {
                            return v.iter().enumerate().any(|(i, x)| i < w.g.insts[k].m.rules[r].args.len() && find(w, id, x, name) && w.keeps((k, r), i));
                        }
                    }
                    v.iter().any(|x| find(w, id, x, name))
                }
                Expr::Pos(x) | Expr::Neg(x) | Expr::Opt(x) | Expr::Rep(x) | Expr::Plus(x) | Expr::RepRange(x, ..) | Expr::Sep(x, _) => find(w, id, x, name),
                Expr::Seq(a, b, _) | Expr::Choice(a, b) => find(w, id, a, name) || find(w, id, b, name),
            }
        }
        find(self, id, &rule.expr, &rule.args[arg])
    }
    /// `expanding`: calls of transparent rules are replaced here.
    fn expr(&mut self, inst: usize, args: &[String], e: &'g Expr, sure: bool, expanding: bool) {
        match e {
            Expr::Str(_) | Expr::Insens(_) | Expr::Range(..) => {}
            Expr::Path(p, a) => {
                if p.len() == 1 && args.contains(&p[0]) {
                    if a.is_some() {
                        self.bad(sure, "an argument is called", p.join("::"));
                    }
                    return;
                }
                let mut sure_args = None;
                match self.g.resolve(inst, p) {
                    None => self.bad(sure, "a rule that does not exist", p.join("::")),
                    Some(Target::Builtin(b)) => match builtin(&b, a) {
                        Ok(()) => {}
                        Err(Some((k, d))) => self.bad(sure, k, d),
                        Err(None) => {
                            self.unknown.get_or_insert("empty parentheses");
                        }
                    },
                    Some(Target::Rule(k, r)) => {
                        let n = self.g.insts[k].m.rules[r].args.len();
                        match a {
                            None if n > 0 => self.bad(sure, "wrong number of arguments", p.join("::")),
                            Some(Args::Slice(..)) => self.bad(sure, "wrong kind of arguments", p.join("::")),
                            Some(Args::Call(v)) if v.len() != n => self.bad(sure, "wrong number of arguments", p.join("::")),
                            Some(Args::Call(_)) if expanding && self.is_inlined(k, r) => {
                                sure_args = Some((k, r));
                                if sure && self.called.insert((k, r)) && k == 0 {
                                    let rule = &self.g.insts[k].m.rules[r];
                                    self.expr(k, &rule.args, &rule.expr, true, true);
                                }
                            }
                            _ => {}
                        }
                    }
                }
                if let Some(Args::Call(v)) = a {
                    for (i, x) in v.iter().enumerate() {
                        let keep = sure_args.is_none_or(|id| self.keeps(id, i));
                        self.expr(inst, args, x, sure && keep, expanding);
                    }
                }
            }
            Expr::Pos(x) | Expr::Neg(x) | Expr::Opt(x) | Expr::Rep(x) | Expr::Plus(x) | Expr::RepRange(x, ..) => self.expr(inst, args, x, sure, expanding),
            Expr::Sep(x, t) => {
                self.trivia(inst, *t, sure);
                self.expr(inst, args, x, sure, expanding);
            }
            Expr::Seq(a, b, t) => {
                self.trivia(inst, *t, sure);
                self.expr(inst, args, a, sure, expanding);
                self.expr(inst, args, b, sure, expanding);
            }
            Expr::Choice(a, b) => {
                self.expr(inst, args, a, sure, expanding);
                self.expr(inst, args, b, sure, expanding);
            }
        }
    }
    fn trivia(&mut self, inst: usize, t: Tr, sure: bool) {
        let t = match t {
            Tr::No => return,
            Tr::Opt => 0,
            Tr::Man => 1,
        };
        if self.g.insts[inst].trivia[t].is_none() {
            self.bad(sure, "trivia that is not defined", ["~", "^"][t].into());
        }
    }
}

const ODD: [&str; 6] = ["self", "super", "crate", "Self", "_", "pest"];

/// Whether the stored grammar means something, and if so its modules.
fn verdict(s: &State) -> (Verdict, Option<G>) {
    for x in &s.sources {
        if let Source::Inline(t) = x {
            if gram::parse_text(t).is_err() {
                return (Verdict::Refuse("not a grammar", "inline".into()), None);
            }
        }
    }
    let mut files = BTreeMap::new();
    for (k, b) in &s.files {
        if let Body::Text(t) = b {
            files.insert(k.clone(), t.clone());
        }
    }
    let texts = files.values().chain(s.sources.iter().filter_map(|x| match x {
        Source::Inline(t) => Some(t),
        _ => None,
    }));
    for t in texts {
        if let Ok(f) = gram::parse_text(t) {
            if f.items.iter().any(|i| matches!(i, Item::Import(i) if i.file.is_some())) {
                return (Verdict::Unknown("an import that spells out a path"), None);
            }
        }
    }
    let p = Project { files, sources: s.sources.clone(), rules_mod: None, boxing: false, no_pair: false };
    let g = match G::new(&p) {
        Ok(g) => g,
        Err(e) => return (Verdict::Refuse("not a grammar", e), None),
    };
    if g.insts.len() > 24 {
        return (Verdict::Unknown("too many modules"), None);
    }
    let mut w = Walk { g: &g, certain: None, unknown: None, called: BTreeSet::new() };
    // Names.
    let mut all_args: BTreeSet<&str> = BTreeSet::new();
    let mut all_names: BTreeSet<&str> = BTreeSet::new();
    let mut all_imports: BTreeSet<&str> = BTreeSet::new();
    let (mut certain, mut unknown): (Option<(&'static str, String)>, Option<&'static str>) = (None, None);
    for (k, i) in g.insts.iter().enumerate() {
        let mut seen: BTreeMap<&str, &str> = BTreeMap::new();
        for (n, l) in &i.m.imports {
            if seen.insert(n, "import").is_some() {
                // The compiler refuses two modules with one name.
                unknown.get_or_insert("two imports have one name");
            }
            all_names.insert(n);
            all_imports.insert(n);
            if let Link::Builtin(p) = l {
                match p.iter().map(|x| x.as_str()).collect::<Vec<_>>()[1..] {
                    [] | ["stack"] | ["unicode"] => {}
                    _ => {
                        // Some way of calling it must be right.
                        let ok = [None, Some(Args::Call(vec![Expr::Str("".into())]))].iter().any(|a| builtin(&p[1..], a).is_ok());
                        if !ok {
                            certain.get_or_insert(("an import of something that does not exist", p.join("::")));
                        }
                    }
                }
            }
        }
        for (j, r) in i.m.rules.iter().enumerate() {
            match seen.insert(&r.name, "rule") {
                None => {}
                Some("rule") => {
                    certain.get_or_insert(("a rule is defined twice", r.name.clone()));
                }
                Some(_) if k == 0 && g.inlined.contains(&(k, j)) => {
                    unknown.get_or_insert("an import has the name of a transparent rule");
                }
                Some(_) => {
                    certain.get_or_insert(("a rule has the name of an import", r.name.clone()));
                }
            }
            all_names.insert(&r.name);
            if (r.name == "~" || r.name == "^") && !r.args.is_empty() {
                unknown.get_or_insert("trivia with arguments");
            }
            let mut own = BTreeSet::new();
            for a in &r.args {
                all_args.insert(a);
                if !own.insert(a) {
                    unknown.get_or_insert("two arguments have one name");
                }
            }
        }
    }
    if all_args.intersection(&all_imports).next().is_some() {
        unknown.get_or_insert("an argument has the name of an import");
    }
    if ODD.iter().any(|n| all_args.contains(n) || all_names.contains(n)) {
        unknown.get_or_insert("names that are special in Rust");
    }
    // Bodies.
    for (k, i) in g.insts.iter().enumerate() {
        for (j, r) in i.m.rules.iter().enumerate() {
            if k != 0 || !g.inlined.contains(&(k, j)) {
                w.expr(k, &r.args, &r.expr, true, k == 0);
            }
        }
    }
    // Bodies that are expanded nowhere.
    for (k, j) in &g.inlined {
        if *k == 0 && !w.called.contains(&(*k, *j)) {
            let r = &g.insts[*k].m.rules[*j];
            w.expr(*k, &r.args, &r.expr, false, true);
        }
    }
    let (wc, wu) = (w.certain, w.unknown);
    let v = match (certain, unknown) {
        // Doubts about names make the rest doubtful too.
        (_, Some(u)) => Verdict::Unknown(u),
        (Some((k, d)), None) => Verdict::Refuse(k, d),
        (None, None) => match (wc, wu) {
            (Some((k, d)), _) => Verdict::Refuse(k, d),
            (None, Some(u)) => Verdict::Unknown(u),
            (None, None) => Verdict::Accept,
        },
    };
    (v, Some(g))
}

/// Names in each `enum Rule` of the code.
fn enums(code: &str) -> Vec<BTreeSet<String>> {
    let mut out = vec![];
    let mut rest = code;
    while let Some(i) = rest.find("pub enum Rule {") {
        rest = &rest[i + 15..];
        let mut names = BTreeSet::new();
        let mut depth = 0i32;
        let mut prev = String::new();
        // Tokens are separated by spaces, documentation is in string literals.
        let mut it = rest.char_indices().peekable();
        let mut word = String::new();
        let mut in_str = false;
        let mut esc = false;
        while let Some((_, c)) = it.next() {
            if in_str {
                match c {
                    _ if esc => esc = false,
                    '\\' => esc = true,
                    '"' => in_str = false,
                    _ => {}
                }
                continue;
            }
            match c {
                '"' => in_str = true,
                '(' | '[' | '{' => {
                    if depth == 0 && !word.is_empty() {
                        prev = std::mem::take(&mut word);
                    }
                    depth += 1;
                }
                ')' | ']' => {
                    depth -= 1;
                    word.clear();
                }
                '}' if depth == 0 => break,
                '}' => depth -= 1,
                ',' if depth == 0 => {
                    if !word.is_empty() {
                        prev = std::mem::take(&mut word);
                    }
                    names.insert(std::mem::take(&mut prev).trim_start_matches("r#").to_string());
                }
                c if c.is_whitespace() => {
                    if depth == 0 && !word.is_empty() {
                        prev = std::mem::take(&mut word);
                    } else {
                        word.clear();
                    }
                }
                c => word.push(c),
            }
        }
        out.push(names);
    }
    out
}

/// The rule types of the code name every rule of every module.
fn missing(g: &G, code: &str) -> Option<String> {
    let mut have = enums(code);
    if have.len() != g.insts.len() {
        return Some(format!("{} rule types for {} modules", have.len(), g.insts.len()));
    }
    for (k, i) in g.insts.iter().enumerate() {
        let mut must: BTreeSet<String> = BTreeSet::from(["EOI".to_string()]);
        let mut may: BTreeSet<String> = BTreeSet::new();
        for (j, r) in i.m.rules.iter().enumerate() {
            if r.name == "~" || r.name == "^" {
            } else if k == 0 && g.inlined.contains(&(k, j)) {
                may.insert(r.name.clone());
            } else {
                must.insert(r.name.clone());
            }
        }
        for (n, l) in &i.m.imports {
            if matches!(l, Link::File(_)) {
                must.insert(n.clone());
            }
        }
        match have.iter().position(|h| must.is_subset(h) && h.iter().all(|n| must.contains(n) || may.contains(n))) {
            Some(x) => {
                have.remove(x);
            }
            None => return Some(format!("no rule type for module {:?} with {must:?}; there are {have:?}", i.path)),
        }
    }
    None
}

// ---------------------------------------------------------------------------------------------

fn same(a: &Got, b: &Got) -> bool {
    match (a, b) {
        // Reasons may list names in any order.
        (Got::Refused(_), Got::Refused(_)) => true,
        _ => a == b,
    }
}

fn describe(c: &Case, s: &State) -> String {
    let mut o = String::new();
    for (k, b) in &s.files {
        match b {
            Body::Text(t) => o.push_str(&format!("--- {k}\n{t}\n")),
            Body::Bytes(b) => o.push_str(&format!("--- {k} ({} bytes, not text)\n", b.len())),
        }
    }
    for x in &s.sources {
        match x {
            Source::File(f) => o.push_str(&format!("root {f}\n")),
            Source::Inline(t) => o.push_str(&format!("--- inline\n{t}\n")),
        }
    }
    o.push_str(&format!("faults: {:?}; rules_mod {:?}\n", s.faults, c.rules_mod));
    o
}

fn viol(class: &str, detail: String) -> Option<Violation> {
    Some(Violation { class: class.into(), detail })
}

fn on_thread<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, f).expect("thread").join().expect("simulator thread"))
}

fn run_case(c: &Case) -> RunResult {
    let mut out = RunResult { history: 0x99, ..Default::default() };
    // All in one thread, one after another; the first state again at the end.
    let all: Vec<&State> = c.states.iter().chain(&c.states[..1]).collect();
    let got: Vec<(Got, u64, u64, usize, BTreeMap<&'static str, u64>)> = on_thread(|| {
        all.iter()
            .map(|s| {
                let (g, w) = derive(c, s);
                (g, w.calls, w.trace, w.leaked(), w.fired.clone())
            })
            .collect()
    });
    let mut first: Option<Got> = None;
    for (n, (s, (g, calls, trace, leaked, fired))) in all.iter().zip(&got).enumerate() {
        out.steps += calls;
        out.count("storage calls", *calls);
        for (k, n) in fired {
            out.count(k, *n);
        }
        out.history = mix(mix(out.history, *trace), matches!(g, Got::Code(_)) as u64);
        if let Got::Code(c) = g {
            out.history = mix(out.history, hash_str(c));
        }
        if *leaked > 0 {
            out.violation = viol("a file stays open after deriving", describe(c, s));
            break;
        }
        if n + 1 == all.len() {
            let f = first.as_ref().unwrap();
            if !same(g, f) {
                out.violation = viol(
                    "after the damage was repaired, deriving does not give what it gave before",
                    format!("{}\nbefore: {}\nafter: {}", describe(c, s), f.show(), g.show()),
                );
            }
            out.count("derivations after repair", 1);
            break;
        }
        if n == 0 {
            first = Some(g.clone());
        }
        for f in &s.faults {
            out.count(FAULTS.iter().find(|x| f.starts_with(**x)).unwrap_or(&"other damage"), 1);
        }
        let (v, gr) = verdict(s);
        match (&v, g) {
            (Verdict::Refuse(k, d), Got::Code(code)) => {
                out.violation = viol(&format!("code is generated from a grammar that has no meaning: {k}"), format!("{}\n{d}\ncode of {} bytes", describe(c, s), code.len()));
                break;
            }
            (Verdict::Accept, Got::Refused(e)) => {
                out.violation = viol("a grammar that has a meaning is refused", format!("{}\n{e}", describe(c, s)));
                break;
            }
            (_, Got::Refused(e)) if e.trim().is_empty() => {
                out.violation = viol("a grammar is refused without any reason", describe(c, s));
                break;
            }
            (Verdict::Accept, Got::Code(code)) => {
                out.count("damaged grammars that still mean something", (n > 0) as u64);
                if let Some(m) = missing(&gr.unwrap(), code) {
                    out.violation = viol("a rule is missing in the generated code", format!("{}\n{m}", describe(c, s)));
                    break;
                }
            }
            (Verdict::Refuse(k, _), Got::Refused(_)) => {
                out.count("damaged grammars refused", 1);
                out.count(REASONS.iter().find(|x| *x == k).unwrap_or(&"refused for another reason"), 1);
            }
            (Verdict::Unknown(k), _) => {
                out.count("damaged grammars not judged", 1);
                let _ = k;
            }
        }
    }
    out.nontrivial = c.states.len() > 1;
    out.sample = Some(format!("{} states, {} files, faults {:?}", c.states.len(), c.states[0].files.len(), c.states.iter().map(|s| s.faults.clone()).collect::<Vec<_>>()));
    out.case = serde_json::to_value(c).unwrap();
    out
}

const REASONS: [&str; 11] = [
    "not a grammar",
    "a module is used as a rule",
    "wrong arguments for a built-in rule",
    "a built-in rule that does not exist",
    "a rule that does not exist",
    "wrong number of arguments",
    "wrong kind of arguments",
    "an argument is called",
    "trivia that is not defined",
    "a rule is defined twice",
    "a rule has the name of an import",
];

// ---------------------------------------------------------------------------------------------
// Damage

const FAULTS: [&str; 20] = [
    "torn write",
    "torn overwrite",
    "lost block",
    "zeroed block",
    "stale block",
    "flipped bit",
    "line lost",
    "line doubled",
    "lines swapped",
    "file lost",
    "files swapped",
    "file replaced",
    "name changed",
    "token lost",
    "token doubled",
    "tokens swapped",
    "misspelt",
    "rule lost",
    "rule doubled",
    "edited",
];

fn tokens(t: &str) -> Vec<(usize, usize)> {
    let b = t.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let s = i;
        let c = b[i];
        if c.is_ascii_alphabetic() || c == b'_' {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
        } else if c == b'"' || c == b'\'' {
            i += 1;
            while i < b.len() && b[i] != c {
                i += if b[i] == b'\\' { 2 } else { 1 };
            }
            i = (i + 1).min(b.len());
            while !t.is_char_boundary(i) {
                i += 1;
            }
        } else {
            i += 1;
            while !t.is_char_boundary(i) {
                i += 1;
            }
            if c.is_ascii_whitespace() {
                continue;
            }
        }
        v.push((s, i));
    }
    v
}
fn is_name(t: &str) -> bool {
    t.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')
}

fn block(r: &mut Rng, n: usize) -> (usize, usize) {
    let a = r.below(n + 1);
    let k = match r.below(3) {
        0 => r.range(1, 4),
        1 => r.range(1, 16),
        _ => r.range(1, 64),
    };
    (a, (a + k).min(n))
}

/// Damage below the level of text.
fn damage_bytes(b: &[u8], other: &[u8], r: &mut Rng) -> (Vec<u8>, &'static str) {
    let n = b.len();
    match r.below(7) {
        0 => (b[..r.below(n + 1)].to_vec(), "torn write"),
        1 => {
            let k = r.below(n + 1);
            let mut v = b[..k].to_vec();
            v.extend_from_slice(&other[k.min(other.len())..]);
            (v, "torn overwrite")
        }
        2 => {
            let (x, y) = block(r, n);
            let mut v = b[..x].to_vec();
            v.extend_from_slice(&b[y..]);
            (v, "lost block")
        }
        3 => {
            let (x, y) = block(r, n);
            let mut v = b.to_vec();
            v[x..y].fill(if r.chance(1, 2) { 0 } else { b' ' });
            (v, "zeroed block")
        }
        4 => {
            let (x, y) = block(r, n);
            let mut v = b.to_vec();
            for i in x..y {
                if let Some(c) = other.get(i) {
                    v[i] = *c;
                }
            }
            (v, "stale block")
        }
        _ => {
            let mut v = b.to_vec();
            if n > 0 {
                v[r.below(n)] ^= 1 << r.below(8);
            }
            (v, "flipped bit")
        }
    }
}

fn damage_lines(t: &str, r: &mut Rng) -> (String, &'static str) {
    let mut l: Vec<&str> = t.split_inclusive('\n').collect();
    if l.is_empty() {
        return (t.into(), "line lost");
    }
    let i = r.below(l.len());
    match r.below(3) {
        0 => {
            l.remove(i);
            (l.concat(), "line lost")
        }
        1 => {
            let x = l[i];
            let j = r.below(l.len() + 1);
            l.insert(j, x);
            (l.concat(), "line doubled")
        }
        _ => {
            let j = r.below(l.len());
            l.swap(i, j);
            (l.concat(), "lines swapped")
        }
    }
}

fn damage_tokens(t: &str, names: &[String], r: &mut Rng) -> (String, &'static str) {
    if r.chance(1, 3) {
        if let Some(t) = gram::misspell(t, r) {
            return (t, "misspelt");
        }
    }
    let k = tokens(t);
    if k.is_empty() {
        return (t.into(), "token lost");
    }
    let (a, b) = *r.pick(&k);
    match r.below(6) {
        0..=2 => {
            let n: Vec<(usize, usize)> = k.iter().copied().filter(|(a, b)| is_name(&t[*a..*b])).collect();
            if n.is_empty() {
                return (t.into(), "name changed");
            }
            let (a, b) = *r.pick(&n);
            let new = match r.below(4) {
                0 => format!("{}x", &t[a..b]),
                _ => r.pick(names).clone(),
            };
            (format!("{}{new}{}", &t[..a], &t[b..]), "name changed")
        }
        3 => (format!("{} {}", &t[..a], &t[b..]), "token lost"),
        4 => (format!("{} {}{}", &t[..b], &t[a..b], &t[b..]), "token doubled"),
        _ => {
            let (c, d) = *r.pick(&k);
            if b <= c {
                (format!("{}{}{}{}{}", &t[..a], &t[c..d], &t[b..c], &t[a..b], &t[d..]), "tokens swapped")
            } else {
                (t.into(), "tokens swapped")
            }
        }
    }
}

fn nodes(e: &mut Expr, f: &mut dyn FnMut(&mut Expr)) {
    f(e);
    match e {
        Expr::Str(_) | Expr::Insens(_) | Expr::Range(..) => {}
        Expr::Path(_, a) => {
            if let Some(Args::Call(v)) = a {
                v.iter_mut().for_each(|x| nodes(x, f));
            }
        }
        Expr::Pos(x) | Expr::Neg(x) | Expr::Opt(x) | Expr::Rep(x) | Expr::Plus(x) | Expr::RepRange(x, ..) | Expr::Sep(x, _) => nodes(x, f),
        Expr::Seq(a, b, _) | Expr::Choice(a, b) => {
            nodes(a, f);
            nodes(b, f);
        }
    }
}
/// Changes one node of the kind that `pick` selects.
fn change(f: &mut FileG, r: &mut Rng, pick: &dyn Fn(&Expr) -> bool, edit: &mut dyn FnMut(&mut Expr, &mut Rng)) -> bool {
    let mut n = 0;
    let each = |f: &mut FileG, g: &mut dyn FnMut(&mut Expr)| {
        for i in &mut f.items {
            if let Item::Rule(x) = i {
                nodes(&mut x.expr, g);
            }
        }
    };
    each(f, &mut |e| n += pick(e) as usize);
    if n == 0 {
        return false;
    }
    let mut k = r.below(n) as isize;
    let mut done = false;
    each(f, &mut |e| {
        if !done && pick(e) {
            if k == 0 {
                edit(e, r);
                done = true;
            }
            k -= 1;
        }
    });
    done
}

/// A careless edit or a bad merge: the text is still well formed.
fn damage_items(t: &str, names: &[String], paths: &[Vec<String>], r: &mut Rng) -> Option<(String, String)> {
    let mut f = gram::parse_text(t).ok()?;
    let rules: Vec<usize> = f.items.iter().enumerate().filter(|(_, i)| matches!(i, Item::Rule(_))).map(|x| x.0).collect();
    let at = *r.pick(&rules);
    let what: String = match r.below(14) {
        0 => {
            f.items.remove(at);
            "rule lost".into()
        }
        1 | 2 => {
            let mut x = f.items[at].clone();
            if let (Item::Rule(x), true) = (&mut x, r.chance(1, 2)) {
                x.expr = Expr::Str("other".into());
                x.silent = r.chance(1, 3);
                if r.chance(1, 2) && x.name != "~" && x.name != "^" {
                    x.args = if x.args.is_empty() { vec!["arg0".into()] } else { vec![] };
                }
            }
            let to = rules[0] + r.below(f.items.len() - rules[0] + 1);
            f.items.insert(to, x);
            "rule doubled".into()
        }
        3 => {
            // Trivia lost or doubled.
            let tr: Vec<usize> = rules.iter().copied().filter(|i| matches!(&f.items[*i], Item::Rule(x) if x.name == "~" || x.name == "^")).collect();
            let at = if tr.is_empty() { at } else { *r.pick(&tr) };
            let x = f.items.remove(at);
            if let (Item::Rule(mut x), true) = (x, r.chance(1, 2)) {
                let to = rules[0] + r.below(f.items.len() - rules[0] + 1);
                f.items.insert(to, Item::Rule(x.clone()));
                x.expr = Expr::Str("_".into());
                f.items.push(Item::Rule(x));
                "rule doubled".into()
            } else {
                "rule lost".into()
            }
        }
        4 => {
            let n = r.pick(names).clone();
            if let Item::Rule(x) = &mut f.items[at] {
                x.name = n;
            }
            "edited: name of a rule".into()
        }
        5 => {
            if let Item::Rule(x) = &mut f.items[at] {
                if x.name == "~" || x.name == "^" {
                    return None;
                }
                if !x.args.is_empty() && r.chance(1, 2) {
                    x.args.pop();
                } else {
                    x.args.push("arg0".into());
                }
            }
            "edited: arguments of a rule".into()
        }
        6 => {
            if let Item::Rule(x) = &mut f.items[at] {
                x.silent = !x.silent;
            }
            "edited: silence of a rule".into()
        }
        7 | 8 => {
            change(&mut f, r, &|e| matches!(e, Expr::Path(..)), &mut |e, r| {
                if let Expr::Path(p, _) = e {
                    *p = r.pick(paths).clone();
                }
            });
            "edited: path".into()
        }
        9 => {
            change(&mut f, r, &|e| matches!(e, Expr::Path(_, Some(Args::Call(_)))), &mut |e, r| {
                if let Expr::Path(_, Some(Args::Call(v))) = e {
                    if v.is_empty() || r.chance(1, 2) {
                        v.push(Expr::Str("more".into()));
                    } else {
                        v.pop();
                    }
                }
            });
            "edited: arguments".into()
        }
        10 | 11 => {
            change(&mut f, r, &|e| matches!(e, Expr::Path(..)), &mut |e, r| {
                if let Expr::Path(_, a) = e {
                    *a = match r.below(4) {
                        0 => None,
                        1 => Some(Args::Slice(Some(0), Some(1))),
                        2 => Some(Args::Call(vec![Expr::Str("one".into())])),
                        _ => Some(Args::Call(vec![Expr::Str("one".into()), Expr::Str("two".into())])),
                    };
                }
            });
            "edited: arguments".into()
        }
        12 => {
            change(&mut f, r, &|e| matches!(e, Expr::Seq(..) | Expr::Rep(_) | Expr::Plus(_) | Expr::RepRange(..)), &mut |e, r| {
                let n = *r.pick(&[Tr::No, Tr::Opt, Tr::Man]);
                match e {
                    Expr::Seq(_, _, t) => *t = n,
                    Expr::Rep(x) | Expr::Plus(x) | Expr::RepRange(x, ..) => {
                        let old = std::mem::replace(&mut **x, Expr::Str(String::new()));
                        let inner = match old {
                            Expr::Sep(y, _) => *y,
                            y => y,
                        };
                        **x = if n == Tr::No { inner } else { Expr::Sep(Box::new(inner), n) };
                    }
                    _ => {}
                }
            });
            "edited: trivia".into()
        }
        _ => {
            let imports: Vec<usize> = f.items.iter().enumerate().filter(|(_, i)| matches!(i, Item::Import(_))).map(|x| x.0).collect();
            if imports.is_empty() {
                return None;
            }
            let at = *r.pick(&imports);
            match r.below(3) {
                0 => {
                    f.items.remove(at);
                }
                k => {
                    let n = r.pick(names).clone();
                    if let Item::Import(i) = &mut f.items[at] {
                        if k == 1 {
                            i.alias = Some(n);
                        } else {
                            *i.path.last_mut().unwrap() = n;
                        }
                    }
                }
            }
            "edited: import".into()
        }
    };
    if f.items.iter().all(|i| matches!(i, Item::Import(_))) {
        return None;
    }
    let fancy = r.chance(1, 2);
    Some((gram::print(&f, r, fancy), what))
}

fn vocabulary(s: &State) -> (Vec<String>, Vec<Vec<String>>) {
    let mut names: BTreeSet<String> = ["pest", "any", "push", "peek", "stack", "unicode", "use", "as", "nothing"].iter().map(|s| s.to_string()).collect();
    let mut paths: BTreeSet<Vec<String>> = BTreeSet::new();
    for p in ["pest", "pest::any", "pest::stack", "pest::stack::push", "pest::stack::peek", "pest::unicode::letter", "pest::unicode", "nothing", "pest::nothing", "pest::stack::pop", "pest::any::any"] {
        paths.insert(p.split("::").map(|s| s.to_string()).collect());
    }
    let texts = s.files.values().filter_map(|b| match b {
        Body::Text(t) => Some(t),
        _ => None,
    });
    for t in texts.chain(s.sources.iter().filter_map(|x| match x {
        Source::Inline(t) => Some(t),
        _ => None,
    })) {
        let Ok(f) = gram::parse_text(t) else { continue };
        for i in &f.items {
            match i {
                Item::Import(i) => {
                    names.extend(i.path.iter().cloned());
                    names.extend(i.alias.clone());
                }
                Item::Rule(x) => {
                    if x.name != "~" && x.name != "^" {
                        names.insert(x.name.clone());
                        paths.insert(vec![x.name.clone()]);
                    }
                    names.extend(x.args.iter().cloned());
                    each_path(&x.expr, &mut |p, _| {
                        paths.insert(p.to_vec());
                        let mut q = p.to_vec();
                        q.push(x.name.clone());
                        paths.insert(q);
                        paths.insert(p[..1].to_vec());
                    });
                }
            }
        }
    }
    (names.into_iter().collect(), paths.into_iter().filter(|p| p[0] != "~" && p[0] != "^" && !p.iter().any(|x| x == "~" || x == "^")).collect())
}

fn damaged(whole: &State, old: &State, r: &mut Rng) -> State {
    let mut s = whole.clone();
    s.faults.clear();
    s.policy = if r.chance(1, 4) { Policy { short: *r.pick(&[0, 1, 7, 64]), eintr_every: *r.pick(&[0, 3]), size: None } } else { Policy::default() };
    s.hash_seed = r.next();
    let (names, paths) = vocabulary(whole);
    let n = *r.pick(&[1, 1, 1, 1, 2, 3]);
    for _ in 0..n {
        let keys: Vec<String> = s.files.keys().cloned().collect();
        let inline: Vec<usize> = s.sources.iter().enumerate().filter(|(_, x)| matches!(x, Source::Inline(_))).map(|x| x.0).collect();
        let k = r.below(keys.len() + inline.len());
        if k >= keys.len() {
            // Grammar text in the program: only edits.
            let at = inline[k - keys.len()];
            let Source::Inline(t) = &s.sources[at] else { unreachable!() };
            let (t, w) = match r.below(3) {
                0 => {
                    let (t, w) = damage_lines(t, r);
                    (t, w.to_string())
                }
                1 => {
                    let (t, w) = damage_tokens(t, &names, r);
                    (t, w.to_string())
                }
                _ => match damage_items(t, &names, &paths, r) {
                    Some(x) => x,
                    None => continue,
                },
            };
            s.sources[at] = Source::Inline(t);
            s.faults.push(w);
            continue;
        }
        let k = keys[k].clone();
        let body = s.files[&k].clone();
        let (b, what): (Option<Body>, String) = match (r.below(12), &body) {
            (0..=2, _) | (_, Body::Bytes(_)) => {
                let other = match r.below(3) {
                    0 => s.files[r.pick(&keys)].bytes().to_vec(),
                    _ => old.files.get(&k).map(|b| b.bytes().to_vec()).unwrap_or_default(),
                };
                let (b, w) = damage_bytes(body.bytes(), &other, r);
                (Some(Body::of(b)), w.into())
            }
            (3, _) => match r.below(3) {
                0 => (None, "file lost".into()),
                1 => {
                    let j = r.pick(&keys).clone();
                    let x = s.files.insert(j.clone(), body.clone()).unwrap();
                    (Some(x), "files swapped".into())
                }
                _ => (Some(old.files.get(&k).cloned().unwrap_or(s.files[r.pick(&keys)].clone())), "file replaced".into()),
            },
            (4 | 5, Body::Text(t)) => {
                let (t, w) = damage_lines(t, r);
                (Some(Body::Text(t)), w.into())
            }
            (6 | 7, Body::Text(t)) => {
                let (t, w) = damage_tokens(t, &names, r);
                (Some(Body::Text(t)), w.into())
            }
            (_, Body::Text(t)) => match damage_items(t, &names, &paths, r) {
                Some((t, w)) => (Some(Body::Text(t)), w),
                None => continue,
            },
        };
        match b {
            Some(b) => {
                s.files.insert(k, b);
            }
            None => {
                s.files.remove(&k);
            }
        }
        s.faults.push(what);
        if s.files.is_empty() {
            break;
        }
    }
    s
}

fn state(p: &Project, r: &mut Rng) -> State {
    State {
        files: p.files.iter().map(|(k, v)| (k.clone(), Body::Text(v.clone()))).collect(),
        sources: p.sources.clone(),
        policy: Policy::default(),
        hash_seed: r.next(),
        faults: vec![],
    }
}

fn case_of(seed: u64) -> Case {
    let r = &mut Rng::new(seed);
    let p = egram::generate(r);
    let whole = state(&p, r);
    // What the files held earlier: another project, or this one after some edits.
    let mut old = if r.chance(1, 2) {
        let q = egram::generate(r);
        state(&q, r)
    } else {
        let mut o = whole.clone();
        for _ in 0..3 {
            let e = damaged(&o, &whole, r);
            if verdict(&e).0 == Verdict::Accept {
                o = e;
            }
        }
        o
    };
    // Files of the two are paired by name, then by order.
    let spare: Vec<Body> = old.files.values().cloned().collect();
    for (i, k) in whole.files.keys().enumerate() {
        if !old.files.contains_key(k) && !spare.is_empty() {
            old.files.insert(k.clone(), spare[i % spare.len()].clone());
        }
    }
    let n = r.range(1, 5);
    let mut states = vec![whole.clone()];
    for _ in 0..n {
        states.push(damaged(&whole, &old, r));
    }
    Case { rules_mod: p.rules_mod, no_pair: p.no_pair, states }
}

struct Damage;

impl Harness for Damage {
    fn info(&self, _prop: &str) -> Info {
        Info {
            level: "seeded search over simulated executions, no coverage guarantee",
            rule: "one evaluation = one generated project derived whole, under each of one to five seeded damages, and whole again; distinct non-trivial = distinct hashes of the storage-call history plus outcomes",
            real: &["pest3_generator::typed (derive)", "pest3_meta::parser", "std::fs, std::collections::HashMap"],
            stub: &["storage below libc (open, read, stat, realpath, lseek, close, getcwd)", "getrandom (hash seeds)", "clock_gettime"],
            assumptions: &[
                "deriving refuses by panicking, which the compiler turns into a compile error",
                "grammars with two imports of one name, names special in Rust, or arguments named like rules are left to the compiler and not judged",
            ],
            step_unit: "storage calls",
            fault_kinds: &FAULTS,
            quick_runs: 45_000,
            thorough_runs: 900_000,
            quick_cap: 100,
            thorough_cap: 700,
            workers: 8,
        }
    }
    fn run(&self, _prop: &str, run_seed: u64, _index: u64) -> RunResult {
        run_case(&case_of(run_seed))
    }
    fn replay(&self, _prop: &str, case: &Value) -> RunResult {
        run_case(&serde_json::from_value::<Case>(case.clone()).expect("case"))
    }
    fn generate(&self, _prop: &str, run_seed: u64, _index: u64) -> Value {
        serde_json::to_value(case_of(run_seed)).unwrap()
    }
    fn size(&self, _prop: &str, case: &Value) -> usize {
        let c: Case = serde_json::from_value(case.clone()).expect("case");
        let one = |s: &State| {
            s.files.values().map(|b| b.bytes().len() + 20).sum::<usize>()
                + s.sources
                    .iter()
                    .map(|x| match x {
                        Source::Inline(t) => t.len() + 30,
                        Source::File(_) => 20,
                    })
                    .sum::<usize>()
                + (s.policy != Policy::default()) as usize * 20
                + s.faults.len()
        };
        c.states.iter().map(|s| one(s) + 20).sum::<usize>() + c.rules_mod.is_some() as usize * 5 + c.no_pair as usize * 5
    }
    fn shrink(&self, _prop: &str, case: &Value) -> Vec<Value> {
        let c: Case = serde_json::from_value(case.clone()).expect("case");
        let mut v: Vec<Case> = vec![];
        for i in 0..c.states.len() {
            if c.states.len() > 1 {
                let mut d = c.clone();
                d.states.remove(i);
                v.push(d);
            }
        }
        if c.rules_mod.is_some() || c.no_pair {
            v.push(Case { rules_mod: None, no_pair: false, ..c.clone() });
        }
        for i in 0..c.states.len() {
            let s = &c.states[i];
            let mut put = |s: State| {
                let mut d = c.clone();
                d.states[i] = s;
                v.push(d);
            };
            if s.policy != Policy::default() {
                put(State { policy: Policy::default(), ..s.clone() });
            }
            if !s.faults.is_empty() {
                put(State { faults: vec![], ..s.clone() });
            }
            for k in s.files.keys() {
                let mut t = s.clone();
                t.files.remove(k);
                put(t);
            }
            if s.sources.len() > 1 {
                for k in 0..s.sources.len() {
                    let mut t = s.clone();
                    t.sources.remove(k);
                    put(t);
                }
            }
            let cut = |t: &str| -> Vec<String> {
                let mut out: Vec<String> = vec![];
                if let Ok(f) = gram::parse_text(t) {
                    for k in 0..f.items.len() {
                        let mut g = f.clone();
                        g.items.remove(k);
                        out.push(gram::print(&g, &mut Rng::new(1), false));
                    }
                    out.push(gram::print(&f, &mut Rng::new(1), false));
                }
                let lines: Vec<&str> = t.split_inclusive('\n').collect();
                for k in 0..lines.len() {
                    out.push([&lines[..k], &lines[k + 1..]].concat().concat());
                }
                let tk = tokens(t);
                for w in [16, 8, 4, 2, 1] {
                    for k in 0..tk.len().saturating_sub(w - 1) {
                        out.push(format!("{}{}", &t[..tk[k].0], &t[tk[k + w - 1].1..]));
                    }
                }
                out
            };
            for (k, b) in &s.files {
                if let Body::Text(t) = b {
                    for t in cut(t) {
                        let mut d = s.clone();
                        d.files.insert(k.clone(), Body::Text(t));
                        put(d);
                    }
                }
            }
            for (k, x) in s.sources.iter().enumerate() {
                if let Source::Inline(t) = x {
                    for t in cut(t) {
                        let mut d = s.clone();
                        d.sources[k] = Source::Inline(t);
                        put(d);
                    }
                }
            }
        }
        v.into_iter().map(|c| serde_json::to_value(c).unwrap()).collect()
    }
}

fn main() {
    std::env::set_var("CARGO_MANIFEST_DIR", MANIFEST);

    sim::sup::main(&Damage)
}
