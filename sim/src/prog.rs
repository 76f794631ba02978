//! Simulated programs: compositions of the public combinators over built-in parsers and
//! simulator-controlled sub-parsers, with the plan that decides what the latter do.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};

pub const STRS: [&str; 12] = ["a", "b", "ab", "\r\n", "\n", "é", "aé", "", "0", "bA", "日", "\r"];
pub const RANGES: [(char, char); 5] = [('a', 'b'), ('0', '9'), ('é', '日'), ('a', 'a'), ('b', 'a')];
pub const CHARS: [char; 4] = ['a', 'b', 'é', '\n'];
pub const SKIPS: [usize; 4] = [0, 1, 2, 3];
pub const INF: usize = usize::MAX;
pub const REPS: [(usize, usize); 13] = [
    (0, INF),
    (1, INF),
    (2, INF),
    (3, INF),
    (0, 0),
    (0, 1),
    (0, 2),
    (0, 3),
    (1, 1),
    (1, 2),
    (2, 2),
    (2, 3),
    (1, 4),
];
pub const SLICE1: [isize; 8] = [0, 1, 2, -1, -2, 3, 5, -4];
pub const SLICE2: [(isize, isize); 13] =
    [(0, 1), (0, 2), (1, 2), (-1, 2), (-2, -1), (0, -1), (2, 1), (0, 0), (1, 3), (0, 5), (4, 6), (-5, -2), (-3, 3)];
/// Built-in character classes with a fixed meaning.
pub const CLASSES: [&str; 15] = [
    "ascii_digit",
    "ascii_nonzero_digit",
    "ascii_bin_digit",
    "ascii_oct_digit",
    "ascii_hex_digit",
    "ascii_alpha_lower",
    "ascii_alpha",
    "ascii_alphanumeric",
    "ascii",
    "ascii_alpha_upper",
    "alphabetic",
    "white_space",
    "uppercase",
    "han",
    "number",
];
/// Characters at and around the borders of the classes and of the UTF-8 lengths.
pub const BORDER: [char; 36] = [
    '\0', '\t', '\u{1f}', ' ', '/', '0', '1', '2', '7', '8', '9', ':', '@', 'A', 'F', 'G', 'Z', '[', '`', 'a', 'f', 'g', 'z', '{', '\u{7f}', '\u{80}', '\u{a0}', 'É', 'é', '½',
    '\u{7ff}', '\u{800}', '日', '\u{3000}', '\u{10000}', '\u{10ffff}',
];
/// What the documentation says of a class (of the characters in `BORDER` and the inputs).
pub fn class(name: &str) -> fn(char) -> bool {
    match name {
        "ascii_digit" => |c| c.is_ascii_digit(),
        "ascii_nonzero_digit" => |c| c.is_ascii_digit() && c != '0',
        "ascii_bin_digit" => |c| c == '0' || c == '1',
        "ascii_oct_digit" => |c| c.is_digit(8),
        "ascii_hex_digit" => |c| c.is_ascii_hexdigit(),
        "ascii_alpha_lower" => |c| c.is_ascii_lowercase(),
        "ascii_alpha_upper" => |c| c.is_ascii_uppercase(),
        "ascii_alpha" => |c| c.is_ascii_alphabetic(),
        "ascii_alphanumeric" => |c| c.is_ascii_alphanumeric(),
        "ascii" => |c| c.is_ascii(),
        "alphabetic" => |c| c.is_alphabetic(),
        "white_space" => |c| c.is_whitespace(),
        "uppercase" => |c| c.is_uppercase(),
        "han" => |c| c == '日',
        "number" => |c| c.is_numeric(),
        _ => unreachable!(),
    }
}
pub const N_RULES: usize = 5;
/// Arities of choices and sequences exercised (17 is user-defined through the public macros).
pub const MAX_ARITY: usize = 17;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    Str(usize),
    Insens(usize),
    Range(usize),
    Char(usize),
    Class(usize),
    Any,
    Skip(usize),
    Never,
    Empty,
    Soi,
    Eoi,
    Newline,
    Peek,
    PeekAll,
    Pop,
    PopAll,
    Drop,
    Slice1(usize),
    Slice2(usize),
    Push,
    Pos,
    Neg,
    Opt,
    Seq,
    Choice,
    Rep(usize),
    Rule(usize),
    /// Succeeds only if the child consumed input (guards unbounded repetitions).
    Progress,
    /// Simulated sub-parser; index into `Plan::leaves`.
    Sim(usize),
    /// Alias of another node (shared or recursive); depth-limited.
    Ref(usize),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Node {
    pub kind: Kind,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub kids: Vec<usize>,
    /// `trivia[i]` sits before element `i` (sequence, `i >= 1`) or between iterations (index 0).
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub trivia: Vec<usize>,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
    Push(usize, usize),
    Pop,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Out {
    /// Match `n` characters after applying the stack operations.
    Match(usize, Vec<Op>),
    /// Fail after applying the stack operations.
    Fail(Vec<Op>),
    /// Report a stack error to the tracker at the current position, then fail.
    Special(u8),
    /// Unwind.
    Panic,
    /// Run another complete parse (index into the session's guests), then match 0 characters.
    Nested(usize),
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Plan {
    /// Per simulated sub-parser, the outcome at each character index of the input.
    pub leaves: Vec<Vec<Out>>,
    /// Transient faults: the outcome of the n-th simulated sub-parser call overrides the table.
    pub transient: Vec<(u64, Out)>,
    /// From this node entry on everything refuses (cancellation / deadline).
    pub cancel_at: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Api {
    /// Caller-supplied position, stack and tracker; partial.
    With,
    /// Caller-supplied position, stack and tracker; whole input.
    WithWhole,
    /// From a string, partial.
    Partial,
    /// From a string, whole input.
    Whole,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Case {
    pub input: String,
    pub nodes: Vec<Node>,
    pub root: usize,
    pub plan: Plan,
    pub api: Api,
    /// Start character index (Api::With*).
    pub start: usize,
    /// Initial stack, character index ranges (Api::With*).
    pub stack: Vec<(usize, usize)>,
    pub depth_limit: usize,
    /// How often the parse is resumed (Api::With*): the same stack and tracker go on from where
    /// the step before stopped, or one character further on, with the stack put back, if it failed.
    #[serde(default)]
    pub resume: usize,
}

impl Case {
    /// How often the parse is resumed.
    pub fn resumes(&self) -> usize {
        if matches!(self.api, Api::With | Api::WithWhole) {
            self.resume
        } else {
            0
        }
    }
    pub fn boundaries(&self) -> Vec<usize> {
        let mut v: Vec<usize> = self.input.char_indices().map(|x| x.0).collect();
        v.push(self.input.len());
        v
    }
    /// Nodes reachable from the root.
    pub fn reachable(&self) -> Vec<bool> {
        self.reachable_from(self.root)
    }
    pub fn reaches(&self, from: usize, to: usize) -> bool {
        self.reachable_from(from)[to]
    }
    fn reachable_from(&self, from: usize) -> Vec<bool> {
        let mut seen = vec![false; self.nodes.len()];
        let mut todo = vec![from];
        while let Some(n) = todo.pop() {
            if std::mem::replace(&mut seen[n], true) {
                continue;
            }
            let node = &self.nodes[n];
            todo.extend(&node.kids);
            todo.extend(&node.trivia);
            if let Kind::Ref(t) = node.kind {
                todo.push(t);
            }
        }
        seen
    }
    pub fn size(&self) -> usize {
        let r = self.reachable();
        let leaf_weight: usize = self
            .plan
            .leaves
            .iter()
            .flatten()
            .map(|o| match o {
                Out::Fail(v) if v.is_empty() => 0,
                Out::Fail(v) => 1 + v.len(),
                Out::Match(n, v) => 1 + n.min(&3) + v.len(),
                _ => 3,
            })
            .sum();
        10 * r.iter().filter(|x| **x).count()
            + 5 * self.input.chars().count()
            + 4 * self.stack.len()
            + 3 * self.plan.transient.len()
            + leaf_weight
            + self.start
            + 20 * self.resume
            + (self.plan.cancel_at != u64::MAX) as usize
    }
    /// Short human readable rendering of the program.
    pub fn render(&self) -> String {
        fn go(c: &Case, n: usize, depth: usize, out: &mut String) {
            if depth > 12 {
                out.push_str("..");
                return;
            }
            let node = &c.nodes[n];
            let list = |v: &Vec<usize>, sep: &str, out: &mut String| {
                for (i, k) in v.iter().enumerate() {
                    if i > 0 {
                        out.push_str(sep);
                    }
                    go(c, *k, depth + 1, out);
                }
            };
            match &node.kind {
                Kind::Str(i) => out.push_str(&format!("{:?}", STRS[*i])),
                Kind::Insens(i) => out.push_str(&format!("^{:?}", STRS[*i])),
                Kind::Range(i) => out.push_str(&format!("{:?}..{:?}", RANGES[*i].0, RANGES[*i].1)),
                Kind::Class(i) => out.push_str(CLASSES[*i]),
                Kind::Slice1(i) => out.push_str(&format!("peek[{}..]", SLICE1[*i])),
                Kind::Slice2(i) => out.push_str(&format!("peek[{}..{}]", SLICE2[*i].0, SLICE2[*i].1)),
                Kind::Sim(i) => out.push_str(&format!("sim{i}")),
                Kind::Ref(i) => out.push_str(&format!("@{i}")),
                Kind::Seq => {
                    out.push_str("seq(");
                    for (i, k) in node.kids.iter().enumerate() {
                        if i > 0 {
                            out.push_str(" <");
                            go(c, node.trivia[i], depth + 1, out);
                            out.push_str("> ");
                        }
                        go(c, *k, depth + 1, out);
                    }
                    out.push(')');
                }
                Kind::Choice => {
                    out.push_str("choice(");
                    list(&node.kids, " | ", out);
                    out.push(')');
                }
                Kind::Rep(i) => {
                    let (lo, hi) = REPS[*i];
                    out.push_str("rep{");
                    out.push_str(&lo.to_string());
                    out.push_str("..");
                    if hi != INF {
                        out.push_str(&hi.to_string());
                    }
                    out.push_str("}(");
                    go(c, node.kids[0], depth + 1, out);
                    out.push_str(" <");
                    go(c, node.trivia[0], depth + 1, out);
                    out.push_str(">)");
                }
                Kind::Rule(i) => {
                    out.push_str(&format!("r{i}("));
                    list(&node.kids, ", ", out);
                    out.push(')');
                }
                k => {
                    out.push_str(&format!("{k:?}").to_lowercase());
                    if !node.kids.is_empty() {
                        out.push('(');
                        list(&node.kids, ", ", out);
                        out.push(')');
                    }
                }
            }
        }
        let mut s = String::new();
        go(self, self.root, 0, &mut s);
        s
    }
}

/// Per-run swarm configuration: which constructs and fault kinds are enabled, and how often.
pub struct Swarm {
    w: [u32; 12],
    term: [u32; 8],
    out: [u32; 4],
    max_nodes: usize,
    max_depth: usize,
    big_arity: bool,
    /// No leaves above this depth.
    deep: usize,
    trivia_fault: bool,
    refs: bool,
    transient: bool,
    cancel: bool,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Focus {
    Stack,
    Generic,
    Rules,
    Bounded,
}

impl Swarm {
    pub fn new(r: &mut Rng, focus: Focus) -> Self {
        let sw = |r: &mut Rng, lo: usize, hi: usize| -> u32 {
            if r.chance(1, 5) {
                0
            } else {
                r.range(lo, hi) as u32
            }
        };
        // seq, choice, rep, opt, pos, neg, push, rule, terminal, sim, ref, (spare)
        let mut w = [0u32; 12];
        for x in w.iter_mut() {
            *x = sw(r, 1, 6);
        }
        w[0] += 2;
        w[1] += 1;
        w[8] += 2;
        w[9] += 2;
        match focus {
            Focus::Stack => {
                w[6] += 2;
                w[9] += 4;
                w[7] = w[7].min(1);
            }
            Focus::Rules => {
                w[7] += 10;
                w[5] += 1;
            }
            Focus::Bounded => {
                w[2] += 4;
                w[9] += 4;
            }
            Focus::Generic => {}
        }
        // string, insens, range/char/class, any/skip, stack read (peek..), stack pop, soi/eoi/newline, never/empty
        let mut term = [0u32; 8];
        for x in term.iter_mut() {
            *x = sw(r, 1, 6);
        }
        term[0] += 2;
        if focus == Focus::Stack {
            term[4] += 2;
            term[5] += 4;
        }
        // match, fail, special, (dirty probability handled separately)
        let out = [r.range(2, 8) as u32, r.range(1, 6) as u32, sw(r, 1, 2), r.range(0, 4) as u32];
        Swarm {
            w,
            term,
            out,
            max_nodes: *r.pick(&[8, 16, 24, 40, 60]),
            max_depth: r.range(3, 8),
            big_arity: r.chance(1, 4),
            deep: *r.pick(&[0, 1, 2, 2, 3]),
            trivia_fault: r.chance(1, 2),
            refs: r.chance(1, 3),
            transient: r.chance(1, 3),
            cancel: r.chance(1, 4),
        }
    }
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub sw: Swarm,
    nodes: Vec<Node>,
    n_leaves: usize,
}

impl<'a> Gen<'a> {
    fn push(&mut self, kind: Kind, kids: Vec<usize>, trivia: Vec<usize>) -> usize {
        self.nodes.push(Node { kind, kids, trivia });
        self.nodes.len() - 1
    }
    fn terminal(&mut self) -> usize {
        let mut t = self.sw.term;
        if t.iter().all(|x| *x == 0) {
            t[0] = 1;
        }
        let r = &mut *self.r;
        let kind = match r.weighted(&t) {
            0 => Kind::Str(r.below(STRS.len())),
            1 => Kind::Insens(r.below(STRS.len())),
            2 => match r.below(3) {
                0 => Kind::Range(r.below(RANGES.len())),
                1 => Kind::Char(r.below(CHARS.len())),
                _ => Kind::Class(r.below(CLASSES.len())),
            },
            3 => {
                if r.chance(1, 2) {
                    Kind::Any
                } else {
                    Kind::Skip(r.below(SKIPS.len()))
                }
            }
            4 => match r.below(4) {
                0 => Kind::Peek,
                1 => Kind::PeekAll,
                2 => Kind::Slice1(r.below(SLICE1.len())),
                _ => Kind::Slice2(r.below(SLICE2.len())),
            },
            5 => match r.below(3) {
                0 => Kind::Pop,
                1 => Kind::PopAll,
                _ => Kind::Drop,
            },
            6 => match r.below(3) {
                0 => Kind::Soi,
                1 => Kind::Eoi,
                _ => Kind::Newline,
            },
            _ => {
                if r.chance(1, 2) {
                    Kind::Never
                } else {
                    Kind::Empty
                }
            }
        };
        self.push(kind, vec![], vec![])
    }
    fn sim(&mut self) -> usize {
        let id = if self.n_leaves > 0 && self.r.chance(1, 3) {
            self.r.below(self.n_leaves)
        } else {
            self.n_leaves += 1;
            self.n_leaves - 1
        };
        self.push(Kind::Sim(id), vec![], vec![])
    }
    fn trivia(&mut self, depth: usize) -> usize {
        let k = self.r.below(10);
        if k < 4 {
            self.push(Kind::Empty, vec![], vec![])
        } else if k < 6 || !self.sw.trivia_fault {
            let k = self.r.below(3);
            let s = self.push(Kind::Str(k), vec![], vec![]);
            self.push(Kind::Opt, vec![s], vec![])
        } else if k < 8 {
            self.sim()
        } else {
            self.expr(depth + 2)
        }
    }
    fn arity(&mut self) -> usize {
        if self.sw.big_arity && self.r.chance(1, 4) {
            self.r.range(4, MAX_ARITY)
        } else {
            self.r.range(2, 4)
        }
    }
    pub fn expr(&mut self, depth: usize) -> usize {
        if depth >= self.sw.max_depth || self.nodes.len() >= self.sw.max_nodes {
            return if self.r.chance(1, 2) { self.sim() } else { self.terminal() };
        }
        let mut w = self.sw.w;
        if !self.sw.refs || self.nodes.is_empty() {
            w[10] = 0;
        }
        w[11] = 0;
        if self.sw.deep > depth {
            w[8] = 0;
            w[9] = 0;
            w[10] = 0;
            w[0] += 4;
            w[1] += 2;
            w[2] += 2;
        }
        match self.r.weighted(&w) {
            0 => {
                let n = self.arity();
                let mut kids = vec![];
                let mut trivia = vec![];
                for _ in 0..n {
                    trivia.push(self.trivia(depth));
                    kids.push(self.expr(depth + 1));
                }
                self.push(Kind::Seq, kids, trivia)
            }
            1 => {
                let n = self.arity();
                let kids = (0..n).map(|_| self.expr(depth + 1)).collect();
                self.push(Kind::Choice, kids, vec![])
            }
            2 => {
                let b = self.r.below(REPS.len());
                let mut body = self.expr(depth + 1);
                if REPS[b].1 == INF {
                    body = self.push(Kind::Progress, vec![body], vec![]);
                }
                let t = self.trivia(depth);
                self.push(Kind::Rep(b), vec![body], vec![t])
            }
            3 => {
                let k = self.expr(depth + 1);
                self.push(Kind::Opt, vec![k], vec![])
            }
            4 => {
                let k = self.expr(depth + 1);
                self.push(Kind::Pos, vec![k], vec![])
            }
            5 => {
                let k = self.expr(depth + 1);
                self.push(Kind::Neg, vec![k], vec![])
            }
            6 => {
                let k = self.expr(depth + 1);
                self.push(Kind::Push, vec![k], vec![])
            }
            7 => {
                let k = self.expr(depth + 1);
                let i = self.r.below(N_RULES);
                self.push(Kind::Rule(i), vec![k], vec![])
            }
            8 => self.terminal(),
            9 => self.sim(),
            _ => {
                let t = self.r.below(self.nodes.len());
                self.push(Kind::Ref(t), vec![], vec![])
            }
        }
    }
}

pub fn gen_input(r: &mut Rng) -> String {
    let words = ["a", "b", "ab", "\r\n", "\n", "é", "0", "A", "B", "日", "\r", "7", " ", "ba", "aaa", "bb", "É", "aÉ"];
    let alphabet: Vec<String> = {
        let n = r.range(1, 6);
        (0..n).map(|_| if r.chance(1, 4) { r.pick(&BORDER).to_string() } else { r.pick(&words).to_string() }).collect()
    };
    let n = match r.below(6) {
        0 => r.below(3),
        1..=3 => r.range(1, 6),
        _ => r.range(4, 14),
    };
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(r.pick(&alphabet));
    }
    s
}

/// A text the program may accept: a random derivation, ignoring predicates.
fn sentence(r: &mut Rng, nodes: &[Node], root: usize) -> String {
    struct S<'a> {
        r: &'a mut Rng,
        nodes: &'a [Node],
        out: String,
        stack: Vec<String>,
        fuel: usize,
    }
    fn go(s: &mut S, id: usize) {
        if s.fuel == 0 || s.out.len() > 48 {
            return;
        }
        s.fuel -= 1;
        let nodes = s.nodes;
        let n = &nodes[id];
        match &n.kind {
            Kind::Str(i) | Kind::Insens(i) => s.out.push_str(STRS[*i]),
            Kind::Range(i) => {
                let (lo, hi) = RANGES[*i];
                let c = *s.r.pick(&[lo, hi]);
                s.out.push(c)
            }
            Kind::Char(i) => s.out.push(CHARS[*i]),
            Kind::Class(i) => {
                let f = class(CLASSES[*i]);
                let v: Vec<char> = BORDER.iter().copied().filter(|c| f(*c)).collect();
                let c = *s.r.pick(&v);
                s.out.push(c)
            }
            Kind::Any | Kind::Sim(_) => {
                let c = *s.r.pick(&['a', 'b', 'é', '0', 'A']);
                s.out.push(c)
            }
            Kind::Skip(i) => (0..SKIPS[*i]).for_each(|_| s.out.push('b')),
            Kind::Never | Kind::Empty | Kind::Soi | Kind::Eoi | Kind::Neg => {}
            Kind::Newline => {
                let c = *s.r.pick(&["\n", "\r\n", "\r"]);
                s.out.push_str(c)
            }
            Kind::Peek => {
                let t = s.stack.last().cloned().unwrap_or_default();
                s.out.push_str(&t)
            }
            Kind::PeekAll | Kind::PopAll => {
                let t: String = s.stack.iter().rev().cloned().collect();
                s.out.push_str(&t);
                if n.kind == Kind::PopAll {
                    s.stack.clear();
                }
            }
            Kind::Pop => {
                let t = s.stack.pop().unwrap_or_default();
                s.out.push_str(&t)
            }
            Kind::Drop => {
                s.stack.pop();
            }
            Kind::Slice1(_) | Kind::Slice2(_) => {
                let t: String = s.stack.concat();
                s.out.push_str(&t)
            }
            Kind::Push => {
                let at = s.out.len();
                go(s, n.kids[0]);
                let t = s.out[at..].to_string();
                s.stack.push(t)
            }
            Kind::Pos => {
                let at = s.out.len();
                go(s, n.kids[0]);
                if s.r.chance(1, 2) {
                    s.out.truncate(at)
                }
            }
            Kind::Opt => {
                if s.r.chance(2, 3) {
                    go(s, n.kids[0])
                }
            }
            Kind::Seq => {
                for (i, k) in n.kids.iter().enumerate() {
                    if i > 0 {
                        go(s, n.trivia[i]);
                    }
                    go(s, *k)
                }
            }
            Kind::Choice => {
                let k = s.r.below(n.kids.len());
                go(s, n.kids[k])
            }
            Kind::Rep(i) => {
                let (lo, hi) = REPS[*i];
                let k = s.r.range(lo, hi.min(lo + 3));
                for j in 0..k {
                    if j > 0 {
                        go(s, n.trivia[0])
                    }
                    go(s, n.kids[0])
                }
            }
            Kind::Rule(_) | Kind::Progress => go(s, n.kids[0]),
            Kind::Ref(t) => go(s, *t),
        }
    }
    let mut s = S { r, nodes, out: String::new(), stack: vec![], fuel: 200 };
    go(&mut s, root);
    s.out
}

fn gen_ops(r: &mut Rng, n: usize) -> Vec<Op> {
    let k = *r.pick(&[1, 1, 1, 2, 2, 3]);
    (0..k)
        .map(|_| {
            if r.chance(1, 2) {
                let a = r.below(n + 1);
                Op::Push(a, (a + r.below(3)).min(n))
            } else {
                Op::Pop
            }
        })
        .collect()
}

fn gen_out(r: &mut Rng, sw: &Swarm, n: usize, focus: Focus) -> Out {
    let dirty = focus == Focus::Stack || r.chance(1, 4);
    match r.weighted(&sw.out[..3]) {
        0 => {
            let k = *r.pick(&[0, 0, 1, 1, 1, 1, 2, 3]);
            let ops = if dirty && r.chance(1, 2) { gen_ops(r, n) } else { vec![] };
            Out::Match(k, ops)
        }
        1 => {
            let ops = if dirty && r.chance(3, 5) { gen_ops(r, n) } else { vec![] };
            Out::Fail(ops)
        }
        _ => Out::Special(r.below(3) as u8),
    }
}

pub fn gen_case(r: &mut Rng, focus: Focus) -> Case {
    let sw = Swarm::new(r, focus);
    let (mut nodes, mut root, n_leaves, sw) = {
        let mut g = Gen { r, sw, nodes: vec![], n_leaves: 0 };
        let root = g.expr(0);
        // Wrap most programs so that something happens after a failure.
        let root = match g.r.below(5) {
            0 => root,
            1 => {
                let o = g.push(Kind::Opt, vec![root], vec![]);
                let s = g.sim();
                let e = g.push(Kind::Empty, vec![], vec![]);
                g.push(Kind::Seq, vec![o, s], vec![e, e])
            }
            2 => {
                let s = g.sim();
                g.push(Kind::Choice, vec![root, s], vec![])
            }
            3 if focus == Focus::Rules => {
                let i = g.r.below(N_RULES);
                g.push(Kind::Rule(i), vec![root], vec![])
            }
            _ => {
                let k = g.r.range(1, 3);
                let mut kids = vec![];
                let mut tr = vec![];
                for _ in 0..k {
                    kids.push(g.sim());
                    tr.push(g.push(Kind::Empty, vec![], vec![]));
                }
                kids.push(root);
                tr.push(g.push(Kind::Empty, vec![], vec![]));
                g.push(Kind::Seq, kids, tr)
            }
        };
        // Some aliases become back references (recursion, depth-limited).
        let total = g.nodes.len();
        for i in 0..total {
            if matches!(g.nodes[i].kind, Kind::Ref(_)) && g.r.chance(1, 2) {
                g.nodes[i].kind = Kind::Ref(g.r.below(total));
            }
        }
        (g.nodes, root, g.n_leaves, g.sw)
    };
    let mut input = match r.below(4) {
        0 => gen_input(r),
        _ => sentence(r, &nodes, root),
    };
    if input.chars().count() > 24 {
        input = input.chars().take(24).collect();
    }
    let api = *r.pick(&[Api::With, Api::With, Api::With, Api::WithWhole, Api::Partial, Api::Whole]);
    let mut start = 0;
    if matches!(api, Api::With | Api::WithWhole) && r.chance(1, 4) {
        start = r.below(4);
        let prefix: String = (0..start).map(|_| *r.pick(&['a', 'b', 'é', '0', '\n'])).collect();
        input = prefix + &input;
    }
    if r.chance(1, 3) {
        let mut v: Vec<char> = input.chars().collect();
        let x = *r.pick(&['a', 'b', 'é', '0', '\n']);
        let at = r.below(v.len() + 1);
        match r.below(3) {
            0 => v.insert(at, x),
            1 if at < v.len() => v[at] = x,
            _ if at < v.len() => {
                v.remove(at);
            }
            _ => {}
        }
        input = v.into_iter().collect();
    }
    if r.chance(1, 60) {
        // A long line, and what follows happens far along it.
        let (i, piece) = *r.pick(&[(0, 'a'), (1, 'b'), (5, 'é'), (10, '日'), (4, '\n')]);
        let k = *r.pick(&[40usize, 63, 64, 65, 79, 80, 81, 100, 119, 120, 121, 127, 128, 129, 200]);
        let prefix: String = (0..k).map(|_| piece).collect();
        input = prefix + &input;
        if matches!(api, Api::With | Api::WithWhole) {
            start += k;
        } else {
            let e = nodes.len();
            let mut push = |kind, kids, trivia| {
                nodes.push(Node { kind, kids, trivia });
                nodes.len() - 1
            };
            push(Kind::Empty, vec![], vec![]);
            let c = push(Kind::Str(i), vec![], vec![]);
            let p = push(Kind::Rep(0), vec![c], vec![e]);
            root = push(Kind::Seq, vec![p, root], vec![e, e]);
        }
    }
    let n = input.chars().count();
    let leaves = (0..n_leaves)
        .map(|_| {
            // per sub-parser reliability profile
            let p = r.below(5);
            (0..=n)
                .map(|_| match p {
                    0 | 1 => Out::Match(1, vec![]),
                    2 if r.chance(2, 3) => Out::Match(1, if r.chance(1, 3) { gen_ops(r, n) } else { vec![] }),
                    _ => gen_out(r, &sw, n, focus),
                })
                .collect()
        })
        .collect();
    let mut transient = vec![];
    if sw.transient && n_leaves > 0 {
        for _ in 0..r.range(1, 4) {
            transient.push((r.below(24) as u64, gen_out(r, &sw, n, focus)));
        }
        transient.sort_by_key(|x| x.0);
        transient.dedup_by_key(|x| x.0);
    }
    let cancel_at = if sw.cancel { r.range(1, 80) as u64 } else { u64::MAX };
    start = start.min(n);
    let (start, stack) = match api {
        Api::With | Api::WithWhole => {
            let k = *r.pick(&[0, 0, 1, 2, 3, 5]);
            let stack = (0..k)
                .map(|_| {
                    let a = r.below(n + 1);
                    (a, (a + r.below(3)).min(n))
                })
                .collect();
            (start, stack)
        }
        _ => (0, vec![]),
    };
    Case {
        input,
        nodes,
        root,
        plan: Plan { leaves, transient, cancel_at },
        api,
        start,
        stack,
        depth_limit: *r.pick(&[2, 4, 8]),
        resume: if matches!(api, Api::With | Api::WithWhole) && r.chance(1, 4) { r.range(1, 3) } else { 0 },
    }
}

/// Candidate simplifications, most aggressive first.
pub fn shrink_case(c: &Case) -> Vec<Case> {
    let mut out = vec![];
    let live = c.reachable();
    let n = c.input.chars().count();
    // Hoist a child to the root.
    for (i, l) in live.iter().enumerate() {
        if *l && i != c.root {
            let mut d = c.clone();
            d.root = i;
            out.push(d);
        }
    }
    if c.plan.cancel_at != u64::MAX {
        let mut d = c.clone();
        d.plan.cancel_at = u64::MAX;
        out.push(d);
    }
    for i in 0..c.plan.transient.len() {
        let mut d = c.clone();
        d.plan.transient.remove(i);
        out.push(d);
    }
    // Replace nodes by simpler ones.
    for (i, l) in live.iter().enumerate() {
        if !*l {
            continue;
        }
        let node = &c.nodes[i];
        if !node.kids.is_empty() && node.kind != Kind::Progress {
            for k in node.kids.clone() {
                if k != i {
                    let mut d = c.clone();
                    d.nodes[i] = c.nodes[k].clone();
                    out.push(d);
                }
            }
        }
        if let Kind::Ref(t) = node.kind {
            if t != i && !c.reaches(t, i) {
                let mut d = c.clone();
                d.nodes[i] = c.nodes[t].clone();
                out.push(d);
            }
        }
        if !matches!(node.kind, Kind::Empty | Kind::Progress) {
            let mut d = c.clone();
            d.nodes[i] = Node { kind: Kind::Empty, kids: vec![], trivia: vec![] };
            out.push(d);
        }
        if !matches!(node.kind, Kind::Never | Kind::Empty) {
            let mut d = c.clone();
            d.nodes[i] = Node { kind: Kind::Never, kids: vec![], trivia: vec![] };
            out.push(d);
        }
        if matches!(node.kind, Kind::Seq | Kind::Choice) && node.kids.len() > 2 {
            for j in 0..node.kids.len() {
                let mut d = c.clone();
                d.nodes[i].kids.remove(j);
                if !d.nodes[i].trivia.is_empty() {
                    d.nodes[i].trivia.remove(j);
                }
                out.push(d);
            }
        }
    }
    // Shorter input.
    for j in 0..n {
        let mut d = c.clone();
        let mut chars: Vec<char> = d.input.chars().collect();
        chars.remove(j);
        d.input = chars.into_iter().collect();
        let m = n - 1;
        let fix = |x: usize| if x > j { x - 1 } else { x }.min(m);
        d.start = fix(d.start);
        for s in d.stack.iter_mut() {
            *s = (fix(s.0), fix(s.1));
        }
        let fixo = |o: &mut Out| {
            if let Out::Match(_, v) | Out::Fail(v) = o {
                for op in v {
                    if let Op::Push(a, b) = op {
                        *a = fix(*a);
                        *b = fix(*b);
                    }
                }
            }
        };
        for l in d.plan.leaves.iter_mut() {
            if l.len() > j {
                l.remove(j);
            }
            l.iter_mut().for_each(fixo);
        }
        d.plan.transient.iter_mut().for_each(|x| fixo(&mut x.1));
        out.push(d);
    }
    for j in 0..c.stack.len() {
        let mut d = c.clone();
        d.stack.remove(j);
        out.push(d);
    }
    if c.resume > 0 {
        out.push(Case { resume: 0, ..c.clone() });
        out.push(Case { resume: c.resume - 1, ..c.clone() });
    }
    if c.start > 0 {
        let mut d = c.clone();
        d.start = 0;
        out.push(d);
    }
    // Simpler outcomes.
    for (li, l) in c.plan.leaves.iter().enumerate() {
        if l.iter().any(|o| *o != Out::Fail(vec![])) {
            let mut d = c.clone();
            d.plan.leaves[li] = vec![Out::Fail(vec![]); l.len()];
            out.push(d);
        }
        for (oi, o) in l.iter().enumerate() {
            for s in simpler(o) {
                let mut d = c.clone();
                d.plan.leaves[li][oi] = s;
                out.push(d);
            }
        }
    }
    for (ti, (at, o)) in c.plan.transient.iter().enumerate() {
        for s in simpler(o) {
            let mut d = c.clone();
            d.plan.transient[ti] = (*at, s);
            out.push(d);
        }
    }
    // Simpler terminals.
    for (i, l) in live.iter().enumerate() {
        if !*l {
            continue;
        }
        let k = match c.nodes[i].kind {
            Kind::Str(x) if x > 0 => Some(Kind::Str(0)),
            Kind::Insens(x) if x > 0 => Some(Kind::Insens(0)),
            Kind::Rule(x) if x > 0 => Some(Kind::Rule(x - 1)),
            _ => None,
        };
        if let Some(k) = k {
            let mut d = c.clone();
            d.nodes[i].kind = k;
            out.push(d);
        }
    }
    out
}

fn simpler(o: &Out) -> Vec<Out> {
    let mut v = vec![];
    match o {
        Out::Fail(ops) => {
            for i in 0..ops.len() {
                let mut x = ops.clone();
                x.remove(i);
                v.push(Out::Fail(x));
            }
        }
        Out::Match(n, ops) => {
            v.push(Out::Fail(ops.clone()));
            for i in 0..ops.len() {
                let mut x = ops.clone();
                x.remove(i);
                v.push(Out::Match(*n, x));
            }
            if *n > 0 {
                v.push(Out::Match(n - 1, ops.clone()));
            }
        }
        Out::Special(_) | Out::Panic | Out::Nested(_) => {
            v.push(Out::Fail(vec![]));
            v.push(Out::Match(0, vec![]));
        }
    }
    v
}

/// Drop unreachable nodes and renumber (for compact replay files).
pub fn compact(c: &Case) -> Case {
    let live = c.reachable();
    let mut map = vec![usize::MAX; c.nodes.len()];
    let mut nodes = vec![];
    for (i, l) in live.iter().enumerate() {
        if *l {
            map[i] = nodes.len();
            nodes.push(c.nodes[i].clone());
        }
    }
    let mut used = vec![];
    for n in nodes.iter_mut() {
        n.kids.iter_mut().for_each(|k| *k = map[*k]);
        n.trivia.iter_mut().for_each(|k| *k = map[*k]);
        match &mut n.kind {
            Kind::Ref(t) => *t = map[*t],
            Kind::Sim(s) => {
                let p = used.iter().position(|x| x == s).unwrap_or_else(|| {
                    used.push(*s);
                    used.len() - 1
                });
                *s = p;
            }
            _ => {}
        }
    }
    let mut d = c.clone();
    d.root = map[c.root];
    d.nodes = nodes;
    d.plan.leaves = used.iter().map(|s| c.plan.leaves[*s].clone()).collect();
    d
}
