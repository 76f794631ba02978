//! Generator of grammars the code generator must accept: every name is defined, recursion only
//! happens behind consumed text, unbounded repetitions always consume, every argument is used.
use crate::emodel::{Project, Source};
use crate::gram::{print, spelled, Args, Expr, FileG, ImportG, Item, RuleG, Tr};
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

const NAMES: [&str; 44] = [
    "a", "b", "c", "item", "list", "value", "Foo", "x_y", "_p", "__q", "e1", "num", "word", "pair", "node", "z9", "Expr", "key", "long_rule_name_with_words", "A",
    // Names that mean something in Rust or in the library.
    "type", "fn", "match", "loop", "r", "clone", "content", "span", "String", "Option", "Vec", "Some", "any", "peek", "push", "check", "try_parse", "rules", "Box",
    "Str", "u8", "text", "res", "str",
];
const ARGS: [&str; 16] = ["p0", "p1", "p2", "p3", "p4", "p5", "in", "T", "R", "impl", "_x", "p6", "p7", "ref", "p8", "X"];
/// Names for imports that mean something in Rust or in the library.
const MODULES: [&str; 18] =
    ["type", "match", "loop", "use", "mod", "core", "std", "pest3", "Option", "str", "u8", "Vec", "Rule", "r", "i", "self_", "content", "clone"];
const LITS: [&str; 26] = [
    "a", "b", "ab", "x", "0", "é", "日本", "\n", "\r\n", "\"", "\\", "\t", "{", "//", "a b", "'", "B", "🦀", "#", "\\n", "abc", "(", ")", ",", "aa", "1",
];
const RANGES: [(char, char); 9] = [('a', 'z'), ('0', '9'), ('a', 'a'), ('é', '日'), ('\u{0}', '\u{10ffff}'), ('"', '~'), ('\'', '\''), ('\\', ']'), ('a', 'c')];
const CLASSES: [&str; 12] = [
    "any", "newline", "ascii_digit", "ascii_nonzero_digit", "ascii_bin_digit", "ascii_oct_digit", "ascii_hex_digit", "ascii_alpha_lower", "ascii_alpha_upper", "ascii_alpha",
    "ascii_alphanumeric", "ascii",
];

#[derive(Clone, Debug)]
struct Known {
    path: Vec<String>,
    argc: usize,
    nullable: bool,
}

/// Which constructs are common in this grammar.
struct Swarm {
    w: [u32; 12],
    leaf: [u32; 10],
    big: bool,
    depth: usize,
    /// Expressions per rule.
    size: usize,
}
impl Swarm {
    fn new(r: &mut Rng) -> Self {
        let sw = |r: &mut Rng, hi: usize| if r.chance(1, 5) { 0 } else { r.range(1, hi) as u32 };
        let mut w = [0; 12];
        for x in w.iter_mut() {
            *x = sw(r, 5);
        }
        w[0] += 2;
        w[1] += 3;
        w[2] += 2;
        let mut leaf = [0; 10];
        for x in leaf.iter_mut() {
            *x = sw(r, 5);
        }
        leaf[0] += 4;
        leaf[3] += 3;
        Swarm { w, leaf, big: r.chance(1, 7), depth: r.range(1, 3), size: *r.pick(&[8, 14, 14, 24]) }
    }
}

struct Gen<'a> {
    r: &'a mut Rng,
    sw: &'a Swarm,
    forward: Vec<Known>,
    /// Rules of this module that may only be reached behind consumed text.
    backward: Vec<Known>,
    own: Option<Known>,
    args: Vec<String>,
    trivia: [bool; 2],
    calls: usize,
    alias: &'a [(String, Vec<String>)],
    size: usize,
    /// Literals of the project so far.
    seen: &'a mut Vec<String>,
}

type Got = (Expr, bool);

fn path(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
/// A different text that is easily taken for `t`.
fn near(t: &str, r: &mut Rng) -> String {
    let chars: Vec<char> = t.chars().collect();
    let swap = |c: &char| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
    let out: String = match r.below(8) {
        0 | 1 => chars.iter().map(swap).collect(),
        2 => {
            let k = r.below(chars.len());
            chars.iter().enumerate().map(|(i, c)| if i == k { swap(c) } else { *c }).collect()
        }
        3 => chars[..chars.len() - 1].iter().collect(),
        4 => chars[1..].iter().collect(),
        5 => format!("{t} "),
        6 => chars.iter().rev().collect(),
        _ => format!("{t}{}", chars[0]),
    };
    if out.is_empty() || out.chars().count() > 6 {
        "Ab".into()
    } else {
        out
    }
}
fn bx(e: Expr) -> Box<Expr> {
    Box::new(e)
}

impl Gen<'_> {
    /// `pest::...`, sometimes through an alias.
    fn builtin(&mut self, v: &[&str]) -> Vec<String> {
        let full = path(v);
        let mut all: Vec<Vec<String>> = vec![full.clone()];
        for (name, t) in self.alias {
            if full.starts_with(t) {
                let mut p = vec![name.clone()];
                p.extend(full[t.len()..].iter().cloned());
                all.push(p.clone());
                all.push(p);
            }
        }
        self.r.pick(&all).clone()
    }
    fn lit(&mut self) -> Got {
        (Expr::Str(self.text()), false)
    }
    /// The text of a literal, sometimes close to one of another literal.
    fn text(&mut self) -> String {
        let t = if !self.seen.is_empty() && self.r.chance(1, 4) {
            let t = self.r.pick(self.seen).clone();
            near(&t, self.r)
        } else {
            self.r.pick(&LITS).to_string()
        };
        if !self.seen.contains(&t) {
            self.seen.push(t.clone());
        }
        t
    }
    fn leaf(&mut self, guarded: bool) -> Got {
        let mut w = self.sw.leaf;
        if self.args.is_empty() {
            w[4] = 0
        } else {
            w[4] += 10
        }
        if !guarded || self.backward.is_empty() {
            w[5] = 0
        } else {
            w[5] += 2
        }
        match self.r.weighted(&w) {
            0 => {
                if self.r.chance(1, 20) {
                    return (Expr::Str(String::new()), true);
                }
                self.lit()
            }
            1 => (Expr::Insens(self.text()), false),
            2 => {
                let (a, b) = *self.r.pick(&RANGES);
                (Expr::Range(a, b), false)
            }
            3 => {
                let plain: Vec<Known> = self.forward.iter().filter(|k| k.argc == 0).cloned().collect();
                if plain.is_empty() {
                    return self.lit();
                }
                let k = self.r.pick(&plain).clone();
                (Expr::Path(k.path, None), k.nullable)
            }
            4 => (Expr::Path(vec![self.r.pick(&self.args).clone()], None), true),
            5 => {
                let k = self.r.pick(&self.backward).clone();
                if k.argc == 0 {
                    return (Expr::Path(k.path, None), true);
                }
                if let Some(own) = self.own.clone() {
                    if own.path == k.path && self.r.chance(2, 3) {
                        // Itself, with the same arguments.
                        let v = self.args.iter().map(|a| Expr::Path(vec![a.clone()], None)).collect();
                        return (Expr::Path(k.path, Some(Args::Call(v))), true);
                    }
                }
                let v = (0..k.argc).map(|_| self.lit().0).collect();
                (Expr::Path(k.path, Some(Args::Call(v))), true)
            }
            6 => {
                let c = *self.r.pick(&CLASSES);
                (Expr::Path(self.builtin(&["pest", c]), None), false)
            }
            7 => {
                let n = *self.r.pick(&["peek", "peek_all", "pop", "pop_all", "drop", "slice", "slice"]);
                if n == "slice" {
                    let a = if self.r.chance(2, 3) { Some(self.r.range(0, 6) as isize - 3) } else { None };
                    let b = if self.r.chance(1, 2) { Some(self.r.range(0, 6) as isize - 3) } else { None };
                    return (Expr::Path(self.builtin(&["pest", "stack", "peek"]), Some(Args::Slice(a, b))), true);
                }
                (Expr::Path(self.builtin(&["pest", "stack", n]), None), true)
            }
            8 => {
                let n = self.r.pick(crate::emodel::UNICODE).to_ascii_lowercase();
                (Expr::Path(self.builtin(&["pest", "unicode", &n]), None), false)
            }
            _ => {
                let n = *self.r.pick(&["soi", "eoi"]);
                (Expr::Path(self.builtin(&["pest", n]), None), true)
            }
        }
    }
    fn tr(&mut self) -> Tr {
        match self.r.below(4) {
            0 if self.trivia[1] => Tr::Man,
            1 | 2 if self.trivia[0] => Tr::Opt,
            _ => Tr::No,
        }
    }
    fn expr(&mut self, d: usize, guarded: bool) -> Got {
        self.size += 1;
        if d == 0 || self.size > self.sw.size {
            return self.leaf(guarded);
        }
        match self.r.weighted(&self.sw.w) {
            0 => self.leaf(guarded),
            1 => self.seq(d, guarded),
            2 => {
                let mut n = self.r.range(2, 4);
                let mut big = false;
                if self.sw.big && self.r.chance(1, 2) {
                    n = self.r.range(5, 18);
                    big = true;
                }
                let mut v = vec![];
                let mut nullable = false;
                for _ in 0..n {
                    let (e, x) = self.expr(if big { 0 } else { d - 1 }, guarded);
                    nullable |= x;
                    v.push(e);
                }
                let mut e = v.pop().unwrap();
                while let Some(l) = v.pop() {
                    e = Expr::Choice(bx(l), bx(e));
                }
                (e, nullable)
            }
            3 => (Expr::Pos(bx(self.expr(d - 1, guarded).0)), true),
            4 => (Expr::Neg(bx(self.expr(d - 1, guarded).0)), true),
            5 => (Expr::Opt(bx(self.expr(d - 1, guarded).0)), true),
            6 => {
                let e = self.solid(d, guarded);
                (Expr::Rep(self.sep(e)), true)
            }
            7 => {
                let e = self.solid(d, guarded);
                (Expr::Plus(self.sep(e)), false)
            }
            8 => {
                let (lo, hi) = if self.r.chance(1, 2) {
                    // Any bounds: both sides of what a body of a few characters can reach.
                    let lo = if self.r.chance(1, 3) { None } else { Some(self.r.below(5)) };
                    let least = lo.unwrap_or(0).max(1);
                    let hi = if self.r.chance(1, 4) { None } else { Some(self.r.range(least, least + 5)) };
                    (lo, hi)
                } else if self.r.chance(1, 12) {
                    let k = *self.r.pick(&[15, 16, 17, 127, 128, 129, 255, 256, 257, 300]);
                    let bounds = *self.r.pick(&[(Some(k), None), (Some(k), Some(k)), (Some(k - 1), Some(k + 1)), (None, Some(k))]);
                    let l = self.lit().0;
                    return (Expr::RepRange(self.sep(l), bounds.0, bounds.1), bounds.0.is_none());
                } else {
                    *self.r.pick(&[
                    (Some(1), Some(1)),
                    (Some(2), Some(2)),
                    (Some(0), Some(2)),
                    (Some(1), Some(3)),
                    (Some(2), None),
                    (None, Some(2)),
                    (None, None),
                    (Some(0), None),
                    (None, Some(1)),
                    (Some(2), Some(3)),
                    (Some(1), None),
                ])
                };
                let (e, n) = if hi.is_none() { (self.solid(d, guarded), false) } else { self.expr(d - 1, guarded) };
                (Expr::RepRange(self.sep(e), lo, hi), n || lo.unwrap_or(0) == 0)
            }
            9 => {
                let (e, n) = self.expr(d - 1, guarded);
                (Expr::Path(self.builtin(&["pest", "stack", "push"]), Some(Args::Call(vec![e]))), n)
            }
            _ => {
                let meta: Vec<Known> = self.forward.iter().filter(|k| k.argc > 0).cloned().collect();
                if meta.is_empty() || self.calls == 0 {
                    return self.seq(d, guarded);
                }
                self.calls -= 1;
                let k = self.r.pick(&meta).clone();
                let v = (0..k.argc).map(|_| self.expr(d.min(2) - 1, guarded).0).collect();
                (Expr::Path(k.path, Some(Args::Call(v))), k.nullable)
            }
        }
    }
    fn seq(&mut self, d: usize, mut guarded: bool) -> Got {
        let mut n = self.r.range(2, 4);
        let mut big = false;
        if self.sw.big && self.r.chance(1, 2) {
            n = self.r.range(5, 18);
            big = true;
        }
        let mut v = vec![];
        let mut nullable = true;
        for _ in 0..n {
            let (e, x) = self.expr(if big { 0 } else { d - 1 }, guarded);
            guarded |= !x;
            nullable &= x;
            v.push(e);
        }
        let mut e = v.pop().unwrap();
        while let Some(l) = v.pop() {
            let t = self.tr();
            e = Expr::Seq(bx(l), bx(e), t);
        }
        (e, nullable)
    }
    /// An expression that always consumes.
    fn solid(&mut self, d: usize, guarded: bool) -> Expr {
        let (e, n) = self.expr(d - 1, guarded);
        if !n {
            return e;
        }
        let l = self.lit().0;
        let t = self.tr();
        Expr::Seq(bx(l), bx(e), t)
    }
    fn sep(&mut self, e: Expr) -> Box<Expr> {
        match self.tr() {
            Tr::No => bx(e),
            t => bx(Expr::Sep(bx(e), t)),
        }
    }
}

const DOCS: [&str; 5] = ["One.", "a = b", "é \"q\" // not a comment", "", "two  words"];
const PLACES: [&str; 7] = ["lib/type.pest", "m1.pest", "m2.pest", "sub/m3.pest", "sub/m4.pest", "sub/deep/m5.pest", "lib/m6.pest"];

/// The argument is used, and not only to be passed on to the rule `own` itself.
fn uses_outside(e: &Expr, arg: &str, own: &str) -> bool {
    match e {
        Expr::Str(_) | Expr::Insens(_) | Expr::Range(..) => false,
        Expr::Path(p, a) => {
            (p.len() == 1 && p[0] == arg) || (p.len() > 1 || p[0] != own) && matches!(a, Some(Args::Call(v)) if v.iter().any(|x| uses_outside(x, arg, own)))
        }
        Expr::Pos(x) | Expr::Neg(x) | Expr::Opt(x) | Expr::Rep(x) | Expr::Plus(x) | Expr::RepRange(x, ..) | Expr::Sep(x, _) => uses_outside(x, arg, own),
        Expr::Seq(a, b, _) | Expr::Choice(a, b) => uses_outside(a, arg, own) || uses_outside(b, arg, own),
    }
}

fn sp(s: &str) -> Expr {
    Expr::Str(s.into())
}

pub fn generate(r: &mut Rng) -> Project {
    loop {
        let p = attempt(r);
        // Diamonds multiply the code.
        match crate::emodel::G::new(&p) {
            Ok(g) if g.insts.len() <= 5 => return p,
            Ok(_) => {}
            Err(e) => panic!("generated grammar refused by the reference: {e}\n{p:#?}"),
        }
    }
}

fn attempt(r: &mut Rng) -> Project {
    let n = 1 + r.weighted(&[4, 4, 3, 1]);
    let root = if r.chance(1, 3) { "sub/root.pest" } else { "root.pest" };
    let mut places: Vec<String> = vec![root.to_string()];
    let mut pool: Vec<&str> = PLACES.to_vec();
    while places.len() < n {
        let i = r.below(pool.len());
        places.push(pool.remove(i).to_string());
    }
    let mut seen: Vec<String> = vec![];
    let mut arg_pool: Vec<&str> = ARGS.to_vec();
    // A name is an argument or something else, in the whole project.
    let mut exports: Vec<Vec<Known>> = vec![vec![]; n];
    let mut files: Vec<FileG> = vec![FileG::default(); n];
    for i in (0..n).rev() {
        let sw = Swarm::new(r);
        let mut names: Vec<&str> = NAMES.to_vec();
        let mut used: BTreeSet<String> = BTreeSet::new();
        let mut imports: Vec<ImportG> = vec![];
        let mut outside: Vec<Known> = vec![];
        if i + 1 < n {
            let k = if i == 0 { r.range(1, 2) } else { r.below(2) };
            for _ in 0..k {
                let t = r.range(i + 1, n - 1);
                let at = |p: &str| format!("/x/g/{p}");
                let p = spelled(&at(&places[i]), &at(&places[t]), r);
                let alias = match r.below(12) {
                    0..=2 => Some(format!("n{}", r.below(4))),
                    3 | 4 => Some(r.pick(&MODULES).to_string()),
                    _ => None,
                };
                let name = alias.clone().unwrap_or_else(|| p.last().unwrap().clone());
                if !used.insert(name.clone()) {
                    continue;
                }
                for k in &exports[t] {
                    let mut path = vec![name.clone()];
                    path.extend(k.path.iter().cloned());
                    outside.push(Known { path, ..k.clone() });
                }
                imports.push(ImportG { path: p, args: false, file: None, alias });
            }
        }
        let mut alias: Vec<(String, Vec<String>)> = vec![];
        if r.chance(1, 3) {
            for (p, n) in [
                (vec!["pest", "stack"], None),
                (vec!["pest", "stack", "push"], Some("keep")),
                (vec!["pest", "any"], Some("dot")),
                (vec!["pest", "unicode"], Some("uni")),
                (vec!["pest", "ascii_digit"], None),
                (vec!["pest"], Some("std_lib")),
                (vec!["pest", "stack", "peek"], Some("look")),
            ] {
                if !r.chance(1, 3) {
                    continue;
                }
                let name = n.map(|s: &str| s.to_string()).unwrap_or_else(|| p.last().unwrap().to_string());
                if used.insert(name.clone()) {
                    imports.push(ImportG { path: path(&p), args: false, file: None, alias: n.map(|s| s.to_string()) });
                    alias.push((name, path(&p)));
                }
            }
        }
        for u in &used {
            names.retain(|x| x != u);
        }
        let trivia = [r.chance(1, 2), r.chance(1, 3)];
        let by_rule = [r.chance(1, 4), r.chance(1, 4)];
        let nr = r.range(2, if i == 0 { 6 } else { 4 });
        // Signature of each rule, then bodies from the last to the first.
        let mut sig: Vec<(String, Vec<String>, bool)> = (0..nr)
            .map(|_| {
                let k = r.below(names.len());
                let name = names.remove(k).to_string();
                let argc = if r.chance(1, 3) { r.range(1, 2).min(arg_pool.len()) } else { 0 };
                let args = (0..argc)
                    .map(|_| {
                        let k = r.below(arg_pool.len());
                        arg_pool.remove(k).to_string()
                    })
                    .collect();
                (name, args, r.chance(1, 4))
            })
            .collect();
        // Arguments named like rules hide these.
        for k in 0..nr {
            for j in 0..sig[k].1.len() {
                if r.chance(1, 6) {
                    let n = if r.chance(2, 3) { r.pick(&sig).0.clone() } else { r.pick(&NAMES).to_string() };
                    if n != sig[k].0 && !used.contains(&n) && !sig[k].1.contains(&n) {
                        sig[k].1[j] = n;
                    }
                } else if !outside.is_empty() && r.chance(1, 12) {
                    // Named like an import of a file: `n` is the argument, `n::a` the rule.
                    let n = r.pick(&outside).path[0].clone();
                    if n != sig[k].0 && !sig[k].1.contains(&n) {
                        sig[k].1[j] = n;
                    }
                }
            }
        }
        let mut rules: Vec<RuleG> = vec![];
        let mut known: Vec<Known> = vec![];
        for k in (0..nr).rev() {
            let (name, args, silent) = sig[k].clone();
            let last = k + 1 == nr;
            let own = Known { path: vec![name.clone()], argc: args.len(), nullable: true };
            let mut backward: Vec<Known> = if last {
                vec![]
            } else {
                (0..=k).map(|j| Known { path: vec![sig[j].0.clone()], argc: sig[j].1.len(), nullable: true }).collect()
            };
            let mut forward = known.clone();
            forward.extend(outside.iter().cloned());
            forward.retain(|k| k.path.len() > 1 || !args.contains(&k.path[0]));
            backward.retain(|k| !args.contains(&k.path[0]));
            let calls = if args.is_empty() { 2 } else { 1 };
            // When the last rule is used in trivia, it uses none itself, unless it starts with a
            // literal: comments can nest.
            let in_trivia = last && (0..2).any(|k| trivia[k] && by_rule[k]);
            let nests = in_trivia && args.is_empty() && r.chance(1, 2);
            let mut g = Gen {
                r,
                sw: &sw,
                forward,
                backward,
                own: Some(own.clone()),
                args: args.clone(),
                trivia: if in_trivia && !nests { [false; 2] } else { trivia },
                calls,
                alias: &alias,
                size: 0,
                seen: &mut seen,
            };
            let depth = sw.depth + g.r.below(2);
            let (mut expr, mut nullable) = g.expr(depth, false);
            for a in &args {
                if !uses_outside(&expr, a, &name) {
                    let a = Expr::Path(vec![a.clone()], None);
                    // An argument after the rest leaves what was in front guarded as it was.
                    expr = Expr::Seq(bx(expr), bx(a), Tr::No);
                }
            }
            if args.is_empty() && (nests || nullable && g.r.chance(1, 2)) {
                expr = Expr::Seq(bx(g.lit().0), bx(expr), Tr::No);
                nullable = false;
            }
            let doc = (0..if r.chance(1, 6) { r.range(1, 2) } else { 0 }).map(|_| r.pick(&DOCS).trim().to_string()).collect();
            known.push(Known { nullable, ..own });
            rules.push(RuleG { doc, name, args, silent, expr });
        }
        rules.reverse();
        if r.chance(1, 4) {
            // Definition order does not matter.
            let k = r.below(rules.len());
            rules.rotate_left(k);
        }
        let leaf = known[0].clone();
        for (k, s) in ["~", "^"].iter().enumerate() {
            if !trivia[k] {
                continue;
            }
            let mut e = match r.below(8) {
                0 | 1 => Expr::Rep(bx(sp(" "))),
                2 => Expr::Rep(bx(Expr::Choice(bx(sp(" ")), bx(sp("\t"))))),
                3 => Expr::Plus(bx(sp(" "))),
                4 => sp("-"),
                5 => Expr::Rep(bx(Expr::Choice(bx(sp(" ")), bx(Expr::Path(path(&["pest", "newline"]), None))))),
                6 => Expr::Opt(bx(sp(" "))),
                _ => Expr::RepRange(bx(sp(" ")), Some(1), Some(2)),
            };
            if leaf.argc == 0 && by_rule[k] {
                let l = Expr::Path(leaf.path.clone(), None);
                e = if leaf.nullable { Expr::Choice(bx(l), bx(e)) } else { Expr::Rep(bx(Expr::Choice(bx(l), bx(sp(" "))))) };
            }
            let at = r.below(rules.len() + 1);
            rules.insert(at, RuleG { doc: vec![], name: s.to_string(), args: vec![], silent: false, expr: e });
        }
        exports[i] = known;
        exports[i].extend(outside);
        let docs = (0..if r.chance(1, 4) { r.range(1, 2) } else { 0 }).map(|_| r.pick(&DOCS).trim().to_string()).collect();
        let mut items: Vec<Item> = imports.into_iter().map(Item::Import).collect();
        items.extend(rules.into_iter().map(Item::Rule));
        files[i] = FileG { docs, items };
    }
    let mut out: BTreeMap<String, String> = BTreeMap::new();
    let mut sources = vec![];
    let has_files = files[0].items.iter().any(|x| matches!(x, Item::Import(i) if i.path[0] != "pest"));
    for i in (0..n).rev() {
        let fancy = r.chance(2, 3);
        let mut f = files[i].clone();
        if i == 0 {
            // Several sources make up the root.
            let split = r.chance(1, 5) && f.items.iter().filter(|x| matches!(x, Item::Rule(_))).count() > 1;
            let mut second = FileG::default();
            if split {
                let first = f.items.iter().position(|x| matches!(x, Item::Rule(_))).unwrap();
                let at = r.range(first + 1, f.items.len() - 1);
                second.items = f.items.split_off(at);
            }
            if !has_files && r.chance(1, 4) {
                sources.push(Source::Inline(print(&f, r, fancy)));
            } else {
                out.insert(places[0].clone(), print(&f, r, fancy));
                sources.push(Source::File(places[0].clone()));
            }
            if split {
                let text = print(&second, r, fancy);
                if r.chance(1, 2) {
                    sources.push(Source::Inline(text));
                } else {
                    out.insert("more.pest".into(), text);
                    sources.push(Source::File("more.pest".into()));
                }
            }
        } else {
            out.insert(places[i].clone(), print(&f, r, fancy));
        }
    }
    Project {
        files: out,
        sources,
        rules_mod: r.chance(1, 6).then(|| r.pick(&["tokens", "r", "syntax_tree"]).to_string()),
        boxing: r.chance(1, 8),
        no_pair: r.chance(1, 8),
    }
}
