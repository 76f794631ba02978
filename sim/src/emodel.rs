//! Reference meaning of complete grammars: an interpreter of the grammar text (as read by the
//! reference parser in `gram`), with call-by-name arguments, trivia, modules, silent rules,
//! stack operations, lookaheads, the error report, the derivation tree and what accessors named
//! after rules must return. It shares no code with the generator or with the combinators.
use crate::gram::{self, Args, Expr, Link, ModG, Tr};
use crate::model::{PairM, Report, StackV, Tree};
use crate::prog::{Op, Out, Plan};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Source {
    File(String),
    Inline(String),
}

/// Grammar files and how the parser is derived from them.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Project {
    pub files: BTreeMap<String, String>,
    pub sources: Vec<Source>,
    pub rules_mod: Option<String>,
    /// `#[box_all_rules = true]`
    pub boxing: bool,
    pub no_pair: bool,
}
impl Project {
    pub fn hash(&self) -> String {
        let s = serde_json::to_string(self).unwrap();
        format!("{:016x}", crate::rng::hash_str(&s))
    }
    pub fn rules_name(&self) -> &str {
        self.rules_mod.as_deref().unwrap_or("rules")
    }
}

pub enum LinkT {
    Builtin(Vec<String>),
    Mod(usize),
}

pub struct Inst {
    pub path: Vec<String>,
    pub m: Rc<ModG>,
    pub links: BTreeMap<String, LinkT>,
    pub rules: BTreeMap<String, usize>,
    pub trivia: [Option<usize>; 2],
}

/// A grammar with all its module instances (one per import path).
pub struct G {
    pub insts: Vec<Inst>,
    /// Silent rules with arguments that are transparent where the root module calls them.
    pub inlined: BTreeSet<(usize, usize)>,
}

pub enum Target {
    Rule(usize, usize),
    Builtin(Vec<String>),
}

pub fn each_path<'e>(e: &'e Expr, f: &mut dyn FnMut(&'e [String], &'e Option<Args>)) {
    match e {
        Expr::Str(_) | Expr::Insens(_) | Expr::Range(..) => {}
        Expr::Path(p, a) => {
            f(p, a);
            if let Some(Args::Call(v)) = a {
                v.iter().for_each(|x| each_path(x, f));
            }
        }
        Expr::Pos(x) | Expr::Neg(x) | Expr::Opt(x) | Expr::Rep(x) | Expr::Plus(x) | Expr::RepRange(x, ..) | Expr::Sep(x, _) => each_path(x, f),
        Expr::Seq(a, b, _) | Expr::Choice(a, b) => {
            each_path(a, f);
            each_path(b, f);
        }
    }
}
pub fn uses_trivia(e: &Expr) -> bool {
    match e {
        Expr::Str(_) | Expr::Insens(_) | Expr::Range(..) => false,
        Expr::Path(_, a) => matches!(a, Some(Args::Call(v)) if v.iter().any(uses_trivia)),
        Expr::Sep(_, t) if *t != Tr::No => true,
        Expr::Seq(_, _, t) if *t != Tr::No => true,
        Expr::Pos(x) | Expr::Neg(x) | Expr::Opt(x) | Expr::Rep(x) | Expr::Plus(x) | Expr::RepRange(x, ..) | Expr::Sep(x, _) => uses_trivia(x),
        Expr::Seq(a, b, _) | Expr::Choice(a, b) => uses_trivia(a) || uses_trivia(b),
    }
}

impl G {
    pub fn new(p: &Project) -> Result<G, String> {
        let mut root = ModG { text: "".into(), docs: vec![], rules: vec![], imports: vec![] };
        let mut files = BTreeMap::new();
        for (i, s) in p.sources.iter().enumerate() {
            let (text, at) = match s {
                Source::File(f) => (p.files.get(f).ok_or("no such file")?.clone(), format!("/g/{f}")),
                Source::Inline(t) => (t.clone(), format!("/g/_inline{i}")),
            };
            let mut read = |f: &str| f.strip_prefix("/g/").and_then(|f| p.files.get(f)).cloned().ok_or("no such file".to_string());
            let l = gram::load(&text, &at, &mut read)?;
            root.docs.extend(l.root.docs.iter().cloned());
            root.rules.extend(l.root.rules.iter().cloned());
            root.imports.extend(l.root.imports.iter().cloned());
            files.extend(l.files);
        }
        let mut g = G { insts: vec![], inlined: BTreeSet::new() };
        g.add(Rc::new(root), vec![], &files);
        g.find_inlined();
        Ok(g)
    }
    fn add(&mut self, m: Rc<ModG>, path: Vec<String>, files: &BTreeMap<String, Rc<ModG>>) -> usize {
        let k = self.insts.len();
        let mut rules = BTreeMap::new();
        let mut trivia = [None, None];
        for (i, r) in m.rules.iter().enumerate() {
            match r.name.as_str() {
                "~" => trivia[0] = Some(i),
                "^" => trivia[1] = Some(i),
                n => {
                    rules.insert(n.to_string(), i);
                }
            }
        }
        self.insts.push(Inst { path: path.clone(), m: m.clone(), links: BTreeMap::new(), rules, trivia });
        for (name, l) in &m.imports {
            let t = match l {
                Link::Builtin(p) => LinkT::Builtin(p.clone()),
                Link::File(f) => {
                    let mut path = path.clone();
                    path.push(name.clone());
                    LinkT::Mod(self.add(files[f].clone(), path, files))
                }
            };
            self.insts[k].links.insert(name.clone(), t);
        }
        k
    }
    fn find_inlined(&mut self) {
        let mut all = BTreeSet::new();
        for (k, i) in self.insts.iter().enumerate() {
            for (j, r) in i.m.rules.iter().enumerate() {
                if r.silent && !r.args.is_empty() && (k == 0 || !uses_trivia(&r.expr)) {
                    all.insert((k, j));
                }
            }
        }
        // Recursive ones are not expanded.
        let calls = |id: &(usize, usize)| {
            let mut out = BTreeSet::new();
            let r = &self.insts[id.0].m.rules[id.1];
            each_path(&r.expr, &mut |p, a| {
                if a.is_some() && !(p.len() == 1 && r.args.contains(&p[0])) {
                    if let Some(Target::Rule(k, j)) = self.resolve(id.0, p) {
                        if all.contains(&(k, j)) {
                            out.insert((k, j));
                        }
                    }
                }
            });
            out
        };
        self.inlined = all
            .iter()
            .filter(|x| {
                let mut seen = calls(x);
                let mut todo: Vec<_> = seen.iter().copied().collect();
                while let Some(y) = todo.pop() {
                    for z in calls(&y) {
                        if seen.insert(z) {
                            todo.push(z);
                        }
                    }
                }
                !seen.contains(x)
            })
            .copied()
            .collect();
        // Nor are those with a name in the body that could be taken for an argument elsewhere.
        let root_args: BTreeSet<&str> = self.insts[0].m.rules.iter().flat_map(|r| r.args.iter().map(|s| s.as_str())).collect();
        let mut kept = std::mem::take(&mut self.inlined);
        kept.retain(|(k, j)| {
            let r = &self.insts[*k].m.rules[*j];
            let mut ok = true;
            if *k == 0 {
                ok &= !root_args.contains(r.name.as_str());
                each_path(&r.expr, &mut |p, _| ok &= p.len() > 1 || r.args.contains(&p[0]) || !root_args.contains(p[0].as_str()));
            }
            ok
        });
        self.inlined = kept;
    }
    pub fn resolve(&self, inst: usize, path: &[String]) -> Option<Target> {
        if path[0] == "pest" {
            return Some(Target::Builtin(path[1..].to_vec()));
        }
        let mut cur = inst;
        for (i, seg) in path.iter().enumerate() {
            let here = &self.insts[cur];
            if i + 1 == path.len() {
                if let Some(r) = here.rules.get(seg) {
                    return Some(Target::Rule(cur, *r));
                }
            }
            match here.links.get(seg)? {
                LinkT::Mod(k) => cur = *k,
                LinkT::Builtin(p) => {
                    let mut v = p[1..].to_vec();
                    v.extend(path[i + 1..].iter().cloned());
                    return Some(Target::Builtin(v));
                }
            }
        }
        None
    }
    pub fn find(&self, path: &[String]) -> Option<usize> {
        self.insts.iter().position(|i| i.path == path)
    }
    /// Name of a rule as a value of the rule type of the module at depth `base` on its path.
    fn shown(&self, inst: usize, rule: usize, base: usize) -> String {
        let i = &self.insts[inst];
        let mut s = i.m.rules[rule].name.clone();
        for seg in i.path[base..].iter().rev() {
            s = format!("{seg}({s})");
        }
        s
    }
    pub fn full(&self, inst: usize, rule: usize) -> String {
        let i = &self.insts[inst];
        let mut v = i.path.clone();
        v.push(i.m.rules[rule].name.clone());
        v.join("::")
    }
}

#[derive(Clone)]
pub enum Bind<'g> {
    Expr(&'g Expr, Env<'g>),
    Fault(usize),
}

#[derive(Clone)]
pub struct Env<'g> {
    pub inst: usize,
    /// The text stands in the root module (after expansion).
    pub root: bool,
    /// Arguments are substituted textually.
    pub inlined: bool,
    pub args: Rc<Vec<(&'g str, Bind<'g>)>>,
}
impl<'g> Env<'g> {
    pub fn plain(inst: usize) -> Self {
        Env { inst, root: inst == 0, inlined: false, args: Rc::new(vec![]) }
    }
    pub fn arg(&self, p: &[String]) -> Option<&Bind<'g>> {
        if p.len() != 1 {
            return None;
        }
        self.args.iter().find(|x| x.0 == p[0]).map(|x| &x.1)
    }
}

/// What an expression is after expanding transparent calls and textual arguments.
pub fn expand<'g>(g: &'g G, mut e: &'g Expr, mut env: Env<'g>) -> (&'g Expr, Env<'g>) {
    loop {
        let Expr::Path(p, a) = e else { return (e, env) };
        if let Some(b) = env.arg(p) {
            match b {
                Bind::Expr(x, en) if env.inlined => {
                    let (x, en) = (*x, en.clone());
                    e = x;
                    env = en;
                    continue;
                }
                _ => return (e, env),
            }
        }
        if let (true, Some(Args::Call(v))) = (env.root, a) {
            if let Some(Target::Rule(k, r)) = g.resolve(env.inst, p) {
                if g.inlined.contains(&(k, r)) {
                    let rule = &g.insts[k].m.rules[r];
                    let args = rule.args.iter().map(|s| s.as_str()).zip(v.iter().map(|x| Bind::Expr(x, env.clone()))).collect();
                    env = Env { inst: k, root: true, inlined: true, args: Rc::new(args) };
                    e = &rule.expr;
                    continue;
                }
            }
        }
        return (e, env);
    }
}

/// Elements of a sequence, with the trivia before each, in the environment each is written in.
pub fn sequence<'g>(g: &'g G, e: &'g Expr, env: &Env<'g>) -> Vec<(Tr, usize, &'g Expr, Env<'g>)> {
    let mut out = vec![];
    let (mut e, mut env) = expand(g, e, env.clone());
    let mut tr = Tr::No;
    let mut inst = env.inst;
    while let Expr::Seq(l, r, t) = e {
        out.push((tr, inst, &**l, env.clone()));
        tr = *t;
        inst = env.inst;
        let (e2, env2) = expand(g, r, env.clone());
        e = e2;
        env = env2;
    }
    out.push((tr, inst, e, env));
    out
}
pub fn choices<'g>(g: &'g G, e: &'g Expr, env: &Env<'g>) -> Vec<(&'g Expr, Env<'g>)> {
    let mut out = vec![];
    let (mut e, mut env) = expand(g, e, env.clone());
    while let Expr::Choice(l, r) = e {
        out.push((&**l, env.clone()));
        let (e2, env2) = expand(g, r, env.clone());
        e = e2;
        env = env2;
    }
    out.push((e, env));
    out
}

// ---------------------------------------------------------------------------------------------
// Accessors

#[derive(Clone, Debug)]
enum Get {
    Leaf,
    Seq(usize, Box<Get>),
    /// The flag: the value inside is optional by itself, and stays one option.
    Choice(usize, bool, Box<Get>),
    Opt(bool, Box<Get>),
    Reps(Box<Get>),
    Content(Box<Get>),
    Tuple(Vec<Get>),
}
impl Get {
    fn optional(&self) -> bool {
        match self {
            Get::Leaf | Get::Reps(_) | Get::Tuple(_) => false,
            Get::Seq(_, x) | Get::Content(x) => x.optional(),
            Get::Choice(..) | Get::Opt(..) => true,
        }
    }
    fn apply(&self, t: &Tree) -> Tree {
        match self {
            Get::Leaf => shallow(t),
            Get::Seq(i, x) => x.apply(&t.kids[*i]),
            Get::Content(x) => x.apply(&t.kids[0]),
            Get::Reps(x) => Tree::node("vec", t.kids.iter().map(|k| x.apply(k)).collect()),
            Get::Tuple(v) => Tree::node("tuple", v.iter().map(|x| x.apply(t)).collect()),
            Get::Choice(i, flat, x) => {
                if t.tag == format!("choice{i}") {
                    let v = x.apply(&t.kids[0]);
                    if *flat {
                        v
                    } else {
                        Tree::node("some", vec![v])
                    }
                } else {
                    Tree::leaf("none")
                }
            }
            Get::Opt(flat, x) => {
                if t.tag == "some" {
                    let v = x.apply(&t.kids[0]);
                    if *flat {
                        v
                    } else {
                        Tree::node("some", vec![v])
                    }
                } else {
                    Tree::leaf("none")
                }
            }
        }
    }
}
/// Rules inside become leaves.
fn shallow(t: &Tree) -> Tree {
    if t.tag.starts_with('<') {
        return Tree::leaf(t.tag.clone());
    }
    Tree { tag: t.tag.clone(), kids: t.kids.iter().map(shallow).collect() }
}

type Getters = BTreeMap<String, Vec<Get>>;

fn join(parts: Vec<Getters>) -> Getters {
    let mut out: Getters = BTreeMap::new();
    for p in parts {
        for (k, v) in p {
            out.entry(k).or_default().extend(v);
        }
    }
    out
}
fn wrap(m: Getters, f: impl Fn(Get) -> Get) -> Getters {
    m.into_iter()
        .map(|(k, mut v)| {
            let one = if v.len() == 1 { v.pop().unwrap() } else { Get::Tuple(v) };
            (k, vec![f(one)])
        })
        .collect()
}

fn getters<'g>(g: &'g G, e: &'g Expr, env: &Env<'g>) -> Getters {
    let (e, env) = expand(g, e, env.clone());
    match e {
        Expr::Str(_) | Expr::Insens(_) | Expr::Range(..) | Expr::Neg(_) => BTreeMap::new(),
        Expr::Path(p, _) => BTreeMap::from([(p.last().unwrap().clone(), vec![Get::Leaf])]),
        Expr::Pos(x) => wrap(getters(g, x, &env), |v| Get::Content(Box::new(v))),
        Expr::Seq(..) => {
            let parts = sequence(g, e, &env).into_iter().enumerate().map(|(i, (_, _, x, en))| wrap(getters(g, x, &en), |v| Get::Seq(i, Box::new(v))));
            join(parts.collect())
        }
        Expr::Choice(..) => {
            let parts = choices(g, e, &env).into_iter().enumerate().map(|(i, (x, en))| wrap(getters(g, x, &en), |v| Get::Choice(i, v.optional(), Box::new(v))));
            join(parts.collect())
        }
        Expr::Opt(x) => wrap(getters(g, x, &env), |v| Get::Opt(v.optional(), Box::new(v))),
        Expr::Rep(x) | Expr::Plus(x) | Expr::RepRange(x, ..) => wrap(getters(g, x, &env), |v| Get::Reps(Box::new(v))),
        Expr::Sep(x, _) => getters(g, x, &env),
    }
}

/// Names of the accessors of a rule.
pub fn accessor_names(g: &G, inst: usize, rule: usize) -> Vec<String> {
    let r = &g.insts[inst].m.rules[rule];
    // Arguments are opaque.
    let args = r.args.iter().map(|s| (s.as_str(), Bind::Fault(0))).collect();
    let env = Env { args: Rc::new(args), ..Env::plain(inst) };
    getters(g, &r.expr, &env).into_keys().collect()
}

// ---------------------------------------------------------------------------------------------
// Evaluation

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FaultCall {
    pub which: usize,
    pub pos: u32,
    pub stack: StackV,
}

#[derive(Clone, Debug)]
enum What {
    Touch,
    Expected(String),
    Unexpected(String),
    Special(String),
}

#[derive(Clone, Debug, Default)]
pub struct EStats {
    pub rules: u64,
    pub clean: u64,
    pub dirty: u64,
    pub ops: u64,
    pub special: u64,
    pub transient: u64,
    pub rollbacks: u64,
    pub getters: u64,
    pub steps: u64,
}

pub struct EOutcome {
    pub ok: Option<(usize, Tree, Vec<PairM>)>,
    pub stack: StackV,
    pub report: Report,
    pub log: Vec<FaultCall>,
    pub stats: EStats,
}

pub struct Eval<'g> {
    g: &'g G,
    input: &'g str,
    bounds: Vec<usize>,
    plan: &'g Plan,
    base: usize,
    with_getters: bool,
    stack: StackV,
    positive: bool,
    rules: Vec<(String, usize, bool)>,
    recs: Vec<(usize, Option<String>, What)>,
    log: Vec<FaultCall>,
    calls: u64,
    steps: u64,
    depth: usize,
    over: bool,
    st: EStats,
    getter_cache: RefCell<BTreeMap<(usize, usize), Rc<Getters>>>,
}

pub const STEPS: u64 = 4000;
pub const DEPTH: usize = 160;

type Res = Option<(usize, Tree, Vec<PairM>)>;

fn leaf(p: usize, s: impl Into<String>) -> Res {
    Some((p, Tree::leaf(s.into()), vec![]))
}

impl<'g> Eval<'g> {
    fn rest(&self, p: usize) -> &'g str {
        &self.input[p..]
    }
    fn text(&self, s: (u32, u32)) -> &'g str {
        &self.input[s.0 as usize..s.1 as usize]
    }
    fn by(&self, pos: usize) -> Option<String> {
        self.rules.iter().rev().find(|r| r.1 != pos).map(|r| r.0.clone())
    }
    fn special(&mut self, pos: usize, s: String) {
        let by = self.by(pos);
        self.recs.push((pos, by, What::Special(s)));
    }
    fn attempt(&mut self, f: impl FnOnce(&mut Self) -> Res) -> Res {
        let saved = self.stack.clone();
        let r = f(self);
        if r.is_none() {
            if self.stack != saved {
                self.st.rollbacks += 1;
            }
            self.stack = saved;
        }
        r
    }
    fn one(&self, pos: usize, f: impl Fn(char) -> bool) -> Option<(usize, char)> {
        let c = self.rest(pos).chars().next()?;
        f(c).then(|| (pos + c.len_utf8(), c))
    }
    fn trivia(&mut self, t: Tr, inst: usize, pos: usize) -> Option<usize> {
        let k = match t {
            Tr::No => return Some(pos),
            Tr::Opt => 0,
            Tr::Man => 1,
        };
        let g = self.g;
        match g.insts[inst].trivia[k] {
            None => Some(pos),
            Some(r) => self.eval(&g.insts[inst].m.rules[r].expr, Env::plain(inst), pos).map(|x| x.0),
        }
    }
    pub fn eval(&mut self, e: &'g Expr, env: Env<'g>, pos: usize) -> Res {
        self.steps += 1;
        if self.steps > STEPS || self.depth > DEPTH {
            self.over = true;
        }
        if self.over {
            return None;
        }
        self.depth += 1;
        let r = self.go(e, env, pos);
        self.depth -= 1;
        r
    }
    fn go(&mut self, e: &'g Expr, env: Env<'g>, pos: usize) -> Res {
        let g = self.g;
        let (e, env) = expand(g, e, env);
        match e {
            Expr::Str(s) => self.rest(pos).starts_with(s.as_str()).then_some(())
                .and_then(|_| leaf(pos + s.len(), format!("str:{s:?}"))),
            Expr::Insens(s) => {
                let mut p = pos;
                for want in s.chars() {
                    p = self.one(p, |c| c == want || (c.is_ascii() && c.eq_ignore_ascii_case(&want)))?.0;
                }
                leaf(p, format!("insens:{s:?}:{:?}", &self.input[pos..p]))
            }
            Expr::Range(a, b) => {
                let (p, c) = self.one(pos, |c| *a <= c && c <= *b)?;
                leaf(p, format!("range:{c:?}"))
            }
            Expr::Path(p, a) => {
                match env.arg(p) {
                    Some(Bind::Fault(k)) => {
                        let k = *k;
                        return self.fault(k, pos);
                    }
                    Some(Bind::Expr(x, en)) => {
                        let (x, en) = (*x, en.clone());
                        return self.eval(x, en, pos);
                    }
                    None => {}
                }
                match g.resolve(env.inst, p).unwrap_or_else(|| panic!("unresolved {p:?}")) {
                    Target::Rule(k, r) => {
                        let rule = &g.insts[k].m.rules[r];
                        let binds: Vec<(&'g str, Bind<'g>)> = match a {
                            Some(Args::Call(v)) => rule.args.iter().map(|s| s.as_str()).zip(v.iter().map(|x| Bind::Expr(x, env.clone()))).collect(),
                            _ => vec![],
                        };
                        self.rule(k, r, binds, pos)
                    }
                    Target::Builtin(v) => self.builtin(&v, a, &env, pos),
                }
            }
            Expr::Pos(x) | Expr::Neg(x) => {
                let want = matches!(e, Expr::Pos(_));
                let saved = self.stack.clone();
                let pol = std::mem::replace(&mut self.positive, want);
                let r = self.eval(x, env, pos);
                self.positive = pol;
                if self.stack != saved {
                    self.st.rollbacks += 1;
                }
                self.stack = saved;
                match (want, r) {
                    (true, Some((_, t, _))) => Some((pos, Tree::node("pos", vec![t]), vec![])),
                    (false, None) => leaf(pos, "neg"),
                    _ => None,
                }
            }
            Expr::Seq(..) => {
                let mut p = pos;
                let mut kids = vec![];
                let mut pairs = vec![];
                for (tr, inst, x, en) in sequence(g, e, &env) {
                    p = self.trivia(tr, inst, p)?;
                    let (q, t, ps) = self.eval(x, en, p)?;
                    p = q;
                    kids.push(t);
                    pairs.extend(ps);
                }
                Some((p, Tree::node("seq", kids), pairs))
            }
            Expr::Choice(..) => {
                for (i, (x, en)) in choices(g, e, &env).into_iter().enumerate() {
                    if let Some((p, t, ps)) = self.attempt(|m| m.eval(x, en, pos)) {
                        return Some((p, Tree::node(format!("choice{i}"), vec![t]), ps));
                    }
                }
                None
            }
            Expr::Opt(x) => match self.attempt(|m| m.eval(x, env, pos)) {
                Some((p, t, ps)) => Some((p, Tree::node("some", vec![t]), ps)),
                None => leaf(pos, "none"),
            },
            Expr::Rep(x) => self.rep(x, env, 0, usize::MAX, pos),
            Expr::Plus(x) => self.rep(x, env, 1, usize::MAX, pos),
            Expr::RepRange(x, lo, hi) => self.rep(x, env, lo.unwrap_or(0), hi.unwrap_or(usize::MAX), pos),
            Expr::Sep(x, _) => self.eval(x, env, pos),
        }
    }
    fn rep(&mut self, x: &'g Expr, env: Env<'g>, lo: usize, hi: usize, pos: usize) -> Res {
        let (tr, inst) = match x {
            Expr::Sep(_, t) => (*t, env.inst),
            _ => (Tr::No, env.inst),
        };
        let mut p = pos;
        let mut kids = vec![];
        let mut pairs = vec![];
        while kids.len() < hi && !self.over {
            let first = kids.is_empty();
            let r = self.attempt(|m| {
                let q = if first { p } else { m.trivia(tr, inst, p)? };
                m.eval(x, env.clone(), q)
            });
            match r {
                Some((q, t, ps)) => {
                    p = q;
                    kids.push(t);
                    pairs.extend(ps);
                }
                None => break,
            }
        }
        if kids.len() < lo {
            return None;
        }
        Some((p, Tree::node("rep", kids), pairs))
    }
    pub fn rule(&mut self, inst: usize, r: usize, binds: Vec<(&'g str, Bind<'g>)>, pos: usize) -> Res {
        let g = self.g;
        let rule = &g.insts[inst].m.rules[r];
        let env = Env { inst, root: inst == 0, inlined: false, args: Rc::new(binds) };
        let name = g.shown(inst, r, self.base);
        self.st.rules += 1;
        if let Some(l) = self.rules.last_mut() {
            l.2 = true;
        }
        self.rules.push((name.clone(), pos, false));
        let got = self.eval(&rule.expr, env, pos);
        let (_, _, had_inner) = self.rules.pop().unwrap();
        if !had_inner {
            let by = self.by(pos);
            let what = match (got.is_some(), self.positive) {
                (false, true) => What::Expected(name.clone()),
                (true, false) => What::Unexpected(name.clone()),
                _ => What::Touch,
            };
            self.recs.push((pos, by, what));
        }
        let (p, t, pairs) = got?;
        let mut kids = vec![];
        if self.with_getters {
            let gs = {
                let mut c = self.getter_cache.borrow_mut();
                c.entry((inst, r))
                    .or_insert_with(|| {
                        let args = rule.args.iter().map(|s| (s.as_str(), Bind::Fault(0))).collect();
                        Rc::new(wrap(getters(g, &rule.expr, &Env { args: Rc::new(args), ..Env::plain(inst) }), |x| x))
                    })
                    .clone()
            };
            for (n, v) in gs.iter() {
                self.st.getters += 1;
                kids.push(Tree::node(format!("get:{n}"), vec![v[0].apply(&t)]));
            }
        }
        kids.insert(0, t);
        let tree = Tree::node(format!("<{}[{pos}..{p}]", g.full(inst, r)), kids);
        let pairs = if rule.silent { vec![] } else { vec![PairM { rule: name, start: pos, end: p, kids: pairs }] };
        Some((p, tree, pairs))
    }
    fn builtin(&mut self, v: &[String], a: &'g Option<Args>, env: &Env<'g>, pos: usize) -> Res {
        let name: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
        let class = |f: fn(char) -> bool| {
            let (p, c) = self.one(pos, f)?;
            leaf(p, format!("class:{c:?}"))
        };
        match (name.as_slice(), a) {
            (["any"], _) => {
                let (p, c) = self.one(pos, |_| true)?;
                leaf(p, format!("any:{c:?}"))
            }
            (["soi"], _) => (pos == 0).then(|| leaf(pos, "soi"))?,
            (["eoi"], _) => (pos == self.input.len()).then(|| leaf(pos, "eoi"))?,
            (["newline"], _) => {
                for (s, n) in [("\r\n", "crlf"), ("\n", "lf"), ("\r", "cr")] {
                    if self.rest(pos).starts_with(s) {
                        return leaf(pos + s.len(), n);
                    }
                }
                None
            }
            (["ascii_digit"], _) => class(|c| c.is_ascii_digit()),
            (["ascii_nonzero_digit"], _) => class(|c| ('1'..='9').contains(&c)),
            (["ascii_bin_digit"], _) => class(|c| c == '0' || c == '1'),
            (["ascii_oct_digit"], _) => class(|c| ('0'..='7').contains(&c)),
            (["ascii_hex_digit"], _) => class(|c| c.is_ascii_hexdigit()),
            (["ascii_alpha_lower"], _) => class(|c| c.is_ascii_lowercase()),
            (["ascii_alpha_upper"], _) => class(|c| c.is_ascii_uppercase()),
            (["ascii_alpha"], _) => class(|c| c.is_ascii_alphabetic()),
            (["ascii_alphanumeric"], _) => class(|c| c.is_ascii_alphanumeric()),
            (["ascii"], _) => class(|c| c.is_ascii()),
            (["unicode", n], _) => {
                let f = unicode(n);
                let (p, c) = self.one(pos, f)?;
                leaf(p, format!("unicode:{c:?}"))
            }
            (["stack", "peek"], Some(Args::Slice(a, b))) => self.slice(pos, a.unwrap_or(0), *b),
            (["stack", "peek"], _) => match self.stack.last() {
                None => {
                    self.special(pos, "Nothing to pop or drop.".into());
                    None
                }
                Some(s) => {
                    let s = self.text(*s);
                    self.rest(pos).starts_with(s).then(|| leaf(pos + s.len(), format!("peek:{pos}..{}", pos + s.len())))?
                }
            },
            (["stack", n @ ("peek_all" | "pop_all")], _) => {
                let mut p = pos;
                for s in self.stack.iter().rev() {
                    let s = self.text(*s);
                    if !self.rest(p).starts_with(s) {
                        return None;
                    }
                    p += s.len();
                }
                if *n == "pop_all" {
                    self.stack.clear();
                    leaf(p, format!("popall:{pos}..{p}"))
                } else {
                    leaf(p, format!("peekall:{pos}..{p}"))
                }
            }
            (["stack", n @ ("pop" | "drop")], _) => match self.stack.pop() {
                None => {
                    self.special(pos, "Nothing to pop or drop.".into());
                    None
                }
                Some(_) if *n == "drop" => leaf(pos, "drop"),
                Some(s) => {
                    let s = self.text(s);
                    self.rest(pos).starts_with(s).then(|| leaf(pos + s.len(), format!("pop:{s:?}")))?
                }
            },
            (["stack", "push"], Some(Args::Call(v))) => {
                let (p, t, ps) = self.eval(&v[0], env.clone(), pos)?;
                self.stack.push((pos as u32, p as u32));
                Some((p, Tree::node("push", vec![t]), ps))
            }
            x => panic!("unknown built-in {x:?}"),
        }
    }
    fn slice(&mut self, pos: usize, a: isize, b: Option<isize>) -> Res {
        let n = self.stack.len() as isize;
        let norm = |x: isize| if (0..=n).contains(&x) { Some(x) } else if (-n..0).contains(&x) { Some(n + x) } else { None };
        let (Some(lo), Some(hi)) = (norm(a), b.map_or(Some(n), norm)) else {
            let e = b.map(|x| x.to_string()).unwrap_or_default();
            self.special(pos, format!("Peek slice {a}..{e} out of bound."));
            return None;
        };
        let mut p = pos;
        for k in lo..hi {
            let s = self.text(self.stack[k as usize]);
            if !self.rest(p).starts_with(s) {
                return None;
            }
            p += s.len();
        }
        leaf(p, "slice")
    }
    fn fault(&mut self, which: usize, pos: usize) -> Res {
        self.log.push(FaultCall { which, pos: pos as u32, stack: self.stack.clone() });
        let call = self.calls;
        self.calls += 1;
        let out = match self.plan.transient.iter().find(|x| x.0 == call) {
            Some(x) => {
                self.st.transient += 1;
                x.1.clone()
            }
            None => {
                let idx = self.bounds.iter().position(|x| *x == pos).unwrap();
                self.plan.leaves.get(which)?.get(idx)?.clone()
            }
        };
        match out {
            Out::Match(n, ops) => {
                let mut p = pos;
                let mut it = self.rest(pos).chars();
                for _ in 0..n {
                    p += it.next()?.len_utf8();
                }
                self.st.ops += !ops.is_empty() as u64;
                self.apply(&ops);
                leaf(p, format!("sim{which}:{pos}..{p}"))
            }
            Out::Fail(ops) => {
                if ops.is_empty() {
                    self.st.clean += 1;
                } else {
                    self.st.dirty += 1;
                }
                self.apply(&ops);
                None
            }
            Out::Special(k) => {
                self.st.special += 1;
                self.special(pos, special_text(k));
                None
            }
            Out::Panic | Out::Nested(_) => None,
        }
    }
    fn apply(&mut self, ops: &[Op]) {
        for op in ops {
            match op {
                Op::Push(a, b) => {
                    let n = self.bounds.len() - 1;
                    let (a, b) = ((*a).min(n), (*b).min(n));
                    self.stack.push((self.bounds[a] as u32, self.bounds[b.max(a)] as u32));
                }
                Op::Pop => {
                    self.stack.pop();
                }
            }
        }
    }
}

pub fn special_text(k: u8) -> String {
    match k {
        0 => "Nothing to pop or drop.".to_string(),
        1 => "Repeated too many times.".to_string(),
        _ => "Peek slice 5..-7 out of bound.".to_string(),
    }
}

/// Unicode properties used; the tables are those of the `pest` crate.
macro_rules! properties {
    ($($n:ident)*) => {
        pub const UNICODE: &[&str] = &[$(stringify!($n)),*];
        pub fn unicode(n: &str) -> fn(char) -> bool {
            match n.to_ascii_uppercase().as_str() {
                $( stringify!($n) => pest3_core::unicode::$n, )*
                _ => panic!("unknown property {n}"),
            }
        }
        $( impl crate::exec::Describe for pest3_core::typed::unicode::$n {
            fn desc(&self) -> Tree { Tree::leaf(format!("unicode:{:?}", self.content)) }
        } )*
    };
}
properties! {
    ALPHABETIC CASED DASH EMOJI HEX_DIGIT ID_START IDEOGRAPHIC LOWERCASE MATH UPPERCASE WHITE_SPACE XID_CONTINUE XID_START
    LETTER NUMBER DECIMAL_NUMBER PUNCTUATION SYMBOL SEPARATOR HAN LATIN GREEK CYRILLIC HIRAGANA KATAKANA
}

pub struct Start<'a> {
    pub inst: usize,
    pub rule: usize,
    pub base: usize,
    pub input: &'a str,
    pub plan: &'a Plan,
    pub start: usize,
    pub stack: StackV,
    pub whole: bool,
    pub getters: bool,
}

/// `None`: too long.
pub fn run<'g>(g: &'g G, s: &'g Start<'g>) -> Option<EOutcome> {
    let mut bounds: Vec<usize> = s.input.char_indices().map(|x| x.0).collect();
    bounds.push(s.input.len());
    let mut m = Eval {
        g,
        input: s.input,
        bounds,
        plan: s.plan,
        base: s.base,
        with_getters: s.getters,
        stack: s.stack.clone(),
        positive: true,
        rules: vec![],
        recs: vec![],
        log: vec![],
        calls: 0,
        steps: 0,
        depth: 0,
        over: false,
        st: EStats::default(),
        getter_cache: RefCell::new(BTreeMap::new()),
    };
    let rule = &g.insts[s.inst].m.rules[s.rule];
    let binds = rule.args.iter().enumerate().map(|(i, n)| (n.as_str(), Bind::Fault(i))).collect();
    let mut ok = m.rule(s.inst, s.rule, binds, s.start);
    if m.over {
        return None;
    }
    if let (Some((p, ..)), true) = (&ok, s.whole) {
        let p = *p;
        let what = if p == s.input.len() { What::Touch } else { What::Expected("EOI".into()) };
        m.recs.push((p, None, what));
        if p != s.input.len() {
            ok = None;
        }
    }
    let pos = m.recs.iter().map(|r| r.0).max().unwrap_or(s.start).max(s.start);
    let mut report = Report { pos, groups: BTreeMap::new() };
    for (_, by, what) in m.recs.iter().filter(|r| r.0 == pos) {
        let x = match what {
            What::Touch => continue,
            What::Expected(x) => &mut report.groups.entry(by.clone()).or_default().0.insert(x.clone()),
            What::Unexpected(x) => &mut report.groups.entry(by.clone()).or_default().1.insert(x.clone()),
            What::Special(x) => &mut report.groups.entry(by.clone()).or_default().2.insert(x.clone()),
        };
        let _ = x;
    }
    m.st.steps = m.steps;
    Some(EOutcome { ok, stack: m.stack, report, log: m.log, stats: m.st })
}
