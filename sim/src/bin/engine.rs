//! Simulator for the parsing engine: properties C01 to C07.
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use sim::exec::{self, ErrInfo, Guest, Hook, Mode, Real, Via};
use sim::model::{self, Ev, Outcome};
use sim::prog::*;
use sim::rng::{mix, Rng};
use sim::sup::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};

const HARD: u64 = 120_000;

struct Engine;

fn hash_log(log: &[Ev]) -> u64 {
    let mut h = 0x5eedu64;
    for e in log {
        let (t, n, p, s) = match e {
            Ev::Enter { node, pos, stack } => (1u64, *node, *pos, stack),
            Ev::Exit { node, pos, stack } => (2u64, *node, *pos, stack),
        };
        h = mix(h, t << 60 | (n as u64) << 32 | p as u64);
        for (a, b) in s {
            h = mix(h, (*a as u64) << 32 | *b as u64);
        }
    }
    h
}

fn viol(class: impl Into<String>, detail: impl Into<String>) -> Option<Violation> {
    Some(Violation { class: class.into(), detail: detail.into() })
}

/// First index where two histories differ, if any.
fn diverge(a: &[Ev], b: &[Ev]) -> Option<usize> {
    let n = a.len().min(b.len());
    (0..n).find(|i| a[*i] != b[*i]).or(if a.len() != b.len() { Some(n) } else { None })
}
fn same_but_stack(a: &Ev, b: &Ev) -> bool {
    match (a, b) {
        (Ev::Enter { node: n, pos: p, stack: s }, Ev::Enter { node: m, pos: q, stack: t })
        | (Ev::Exit { node: n, pos: p, stack: s }, Ev::Exit { node: m, pos: q, stack: t }) => n == m && p == q && s != t,
        _ => false,
    }
}

fn c01(case: &Rc<Case>, m: &Outcome, mode: Mode) -> Option<Violation> {
    let r = exec::run(case, mode, Via::Node, None, vec![], HARD);
    let b = case.boundaries();
    let init: model::StackV = model_initial(case, &b);
    if let Some(i) = diverge(&m.log, &r.log) {
        if let (Some(x), Some(y)) = (m.log.get(i), r.log.get(i)) {
            if same_but_stack(x, y) {
                return viol(
                    "stack contents differ from the ones due",
                    format!("{mode:?} {:?} on {:?}\nevent {i}: due {x:?}\n        got {y:?}", case.render(), case.input),
                );
            }
        }
        // Histories differ for another reason: not judged here.
        return rolled_back(case, &r, &init, mode);
    }
    if let (Some(s), Some(_), Some(_)) = (&r.stack, &r.ok, &m.ok) {
        if *s != m.stack {
            return viol("final stack differs from the one due", format!("{mode:?} {} on {:?}: due {:?}, got {s:?}", case.render(), case.input, m.stack));
        }
    }
    rolled_back(case, &r, &init, mode)
}
fn rolled_back(case: &Case, r: &Real, init: &model::StackV, mode: Mode) -> Option<Violation> {
    match &r.rolled_back {
        Some(s) if s != init => viol(
            "an enclosing attempt cannot restore the stack",
            format!("{mode:?} {} on {:?}: stack before {init:?}, after abandoning the attempt {s:?}", case.render(), case.input),
        ),
        _ => None,
    }
}
fn model_initial(case: &Case, b: &[usize]) -> model::StackV {
    let n = b.len() - 1;
    case.stack.iter().map(|(x, y)| (b[(*x).min(n)] as u32, b[(*y).min(n).max((*x).min(n))] as u32)).collect()
}

fn c02(case: &Rc<Case>) -> Option<Violation> {
    let p = exec::run(case, Mode::Parse, Via::Node, None, vec![], HARD);
    let c = exec::run(case, Mode::Check, Via::Node, None, vec![], HARD);
    let ctx = || format!("{} on {:?} via {}", case.render(), case.input, via(case));
    if p.panicked.is_some() != c.panicked.is_some() {
        return viol("only one of parse and check panics", format!("{}: parse {:?}, check {:?}", ctx(), p.panicked, c.panicked));
    }
    if p.panicked.is_some() {
        return None;
    }
    match (&p.ok, &c.ok) {
        (Some(a), Some(b)) => {
            if a.0 != b.0 {
                return viol("parse and check stop at different positions", format!("{}: parse {:?}, check {:?}", ctx(), a.0, b.0));
            }
            if p.stack != c.stack {
                return viol("parse and check leave different stacks", format!("{}: parse {:?}, check {:?}", ctx(), p.stack, c.stack));
            }
        }
        (None, None) => {
            if p.err != c.err {
                return viol("parse and check report different errors", format!("{}: parse {:?}\n check {:?}", ctx(), p.err, c.err));
            }
            if p.stack != c.stack {
                return viol("parse and check leave different stacks after a failure", format!("{}: parse {:?}, check {:?}", ctx(), p.stack, c.stack));
            }
        }
        (a, b) => {
            return viol("parse and check disagree on acceptance", format!("{}: parse ok={}, check ok={}", ctx(), a.is_some(), b.is_some()));
        }
    }
    // The convenience entry points are the same parser.
    let v = exec::run(case, Mode::Parse, Via::Parser, None, vec![], HARD);
    if (&v.ok, &v.err, &v.stack) != (&p.ok, &p.err, &p.stack) {
        return viol("entry points of the parser type and of the rule type disagree", format!("{}: {:?} against {:?}", ctx(), v.ok, p.ok));
    }
    None
}

fn via(case: &Case) -> String {
    match case.resumes() {
        0 => format!("{:?}", case.api),
        k => format!("{:?} resumed {k} times", case.api),
    }
}

fn whole(api: Api) -> bool {
    matches!(api, Api::Whole | Api::WithWhole)
}

fn c03(case: &Rc<Case>, m: &Outcome, mode: Mode) -> Option<Violation> {
    let r = exec::run(case, mode, Via::Node, None, vec![], HARD);
    let ctx = || format!("{mode:?} {} on {:?} via {}", case.render(), case.input, via(case));
    if let Some(x) = &r.misuse {
        return viol("an element that must not be evaluated was", format!("{}: {x}", ctx()));
    }
    if let Some(p) = &r.panicked {
        return if p == "runaway" { None } else { viol("parsing panics", format!("{}: {p}", ctx())) };
    }
    match (&m.ok, &r.ok) {
        (Some((p, t, _)), Some((q, u, _))) => {
            if let Some(q) = q {
                if p != q {
                    return viol("wrong end position", format!("{}: due {p}, got {q}", ctx()));
                }
            }
            if let Some(u) = u {
                if t != u {
                    return viol("wrong tree", format!("{}: due {}, got {}", ctx(), t.show(), u.show()));
                }
            }
        }
        (None, None) => {}
        (a, b) => return viol("wrong acceptance", format!("{}: due {}, got {}", ctx(), a.is_some(), b.is_some())),
    }
    if let Some(i) = diverge(&m.log, &r.log) {
        let (x, y) = (m.log.get(i), r.log.get(i));
        if !(x.is_some() && y.is_some() && same_but_stack(x.unwrap(), y.unwrap())) {
            return viol("sub-parsers tried in another order or at another place", format!("{}: event {i}: due {x:?}, got {y:?}", ctx()));
        }
    }
    None
}

fn never_failing(case: &Rc<Case>) -> Option<Violation> {
    let mut c = (**case).clone();
    c.api = Api::Partial;
    c.start = 0;
    c.stack = vec![];
    let e = c.nodes.len();
    c.nodes.push(Node { kind: Kind::Empty, kids: vec![], trivia: vec![] });
    c.nodes.push(Node { kind: Kind::Progress, kids: vec![case.root], trivia: vec![] });
    c.nodes.push(Node { kind: Kind::Rep(0), kids: vec![e + 1], trivia: vec![e] });
    c.root = e + 2;
    let m = model::run(&c);
    let mut c1 = (**case).clone();
    c1.api = Api::Partial;
    let (r, _) = exec::run_never_failing(&Rc::new(c1), HARD);
    let (p, t, _) = m.ok.clone().expect("repetition never fails");
    match r {
        Ok((q, u)) if p == q && t == u => None,
        x => viol("never-failing repetition differs from the repetition", format!("{} on {:?}: due ({p}, {}), got {:?}", c.render(), c.input, t.show(), x.map(|y| (y.0, y.1.show())))),
    }
}

fn c04(case: &Rc<Case>, m: &Outcome, mode: Mode) -> Option<Violation> {
    if m.ok.is_some() {
        return None;
    }
    let r = exec::run(case, mode, Via::Node, None, vec![], HARD);
    if r.ok.is_some() || r.panicked.is_some() {
        return None;
    }
    let ctx = || format!("{mode:?} {} on {:?} via {}", case.render(), case.input, via(case));
    match &r.err {
        Some(ErrInfo::Report(got)) => {
            if got.pos != m.report.pos {
                return viol("wrong error position", format!("{}: due {:?}\n got {got:?}", ctx(), m.report));
            }
            if *got != m.report {
                return viol("wrong expectations in the error", format!("{}: due {:?}\n got {got:?}", ctx(), m.report));
            }
        }
        Some(got @ ErrInfo::Message { pos, .. }) => {
            if *pos != m.report.pos {
                return viol("wrong error position", format!("{}: due {}\n got {got:?}", ctx(), m.report.pos));
            }
            let due = exec::expected_message(&case.input, &m.report);
            if *got != due {
                return viol("wrong error message", format!("{}: due {due:?}\n got {got:?}", ctx()));
            }
        }
        None => return viol("failure without an error", ctx()),
    }
    None
}

fn c05(case: &Rc<Case>, m: &Outcome) -> Option<Violation> {
    let Some((_, _, due)) = &m.ok else { return None };
    let r = exec::run(case, Mode::Parse, Via::Node, None, vec![], HARD);
    let Some((_, _, Some(got))) = &r.ok else { return None };
    let ctx = || format!("{} on {:?} via {}", case.render(), case.input, via(case));
    let show = |v: &Vec<model::PairM>| v.iter().map(|p| p.show()).collect::<Vec<_>>().join(" ");
    fn nested(v: &[model::PairM], lo: usize, hi: usize) -> bool {
        let mut at = lo;
        v.iter().all(|p| {
            let ok = p.start >= at && p.start <= p.end && p.end <= hi && nested(&p.kids, p.start, p.end);
            at = p.end;
            ok
        })
    }
    if !nested(got, 0, case.input.len()) {
        return viol("pairs are not nested in order", format!("{}: {}", ctx(), show(got)));
    }
    if got != due {
        return viol("pairs differ from the derivation", format!("{}: due {}\n got {}", ctx(), show(due), show(got)));
    }
    if let Some(n) = &r.pair_note {
        return viol("pair view is inconsistent", format!("{}: {n}", ctx()));
    }
    None
}

/// Structural accounting on the real history, independent of the reference run.
fn accounting(case: &Case, log: &[Ev]) -> Option<String> {
    struct F {
        node: usize,
        tried: Vec<usize>,
        last_ok: bool,
        bodies_ok: usize,
        failed: bool,
    }
    let mut st: Vec<F> = vec![];
    for (i, e) in log.iter().enumerate() {
        match e {
            Ev::Enter { node, .. } => {
                let id = *node as usize;
                if let Some(f) = st.last_mut() {
                    let n = &case.nodes[f.node];
                    match n.kind {
                        Kind::Choice => {
                            if f.last_ok {
                                return Some(format!("event {i}: alternative {id} tried after an alternative of {} matched", f.node));
                            }
                            let k = f.tried.len();
                            if k >= n.kids.len() || n.kids[k] != id {
                                return Some(format!("event {i}: choice {} tries {id} as attempt {k}", f.node));
                            }
                        }
                        Kind::Seq => {
                            let k = f.tried.len();
                            if k > 0 && !f.last_ok {
                                return Some(format!("event {i}: sequence {} goes on after a failure", f.node));
                            }
                            if k >= 2 * n.kids.len() - 1 {
                                return Some(format!("event {i}: sequence {} tries more than its elements", f.node));
                            }
                        }
                        Kind::Rep(b) => {
                            let (_, hi) = REPS[b];
                            if f.failed {
                                return Some(format!("event {i}: repetition {} tries again after a failed iteration", f.node));
                            }
                            if f.bodies_ok >= hi {
                                return Some(format!("event {i}: repetition {} exceeds its bound {hi}", f.node));
                            }
                        }
                        Kind::Opt | Kind::Pos | Kind::Neg | Kind::Push | Kind::Rule(_) => {
                            if !f.tried.is_empty() {
                                return Some(format!("event {i}: node {} evaluates its only child twice", f.node));
                            }
                        }
                        _ => {}
                    }
                    f.tried.push(id);
                }
                st.push(F { node: id, tried: vec![], last_ok: false, bodies_ok: 0, failed: false });
            }
            Ev::Exit { pos, .. } => {
                let ok = *pos != u32::MAX;
                st.pop();
                if let Some(f) = st.last_mut() {
                    f.last_ok = ok;
                    let n = &case.nodes[f.node];
                    if matches!(n.kind, Kind::Rep(_)) {
                        // body, trivia, body, trivia, body ...
                        if !ok {
                            f.failed = true;
                        } else if f.tried.len() % 2 == 1 {
                            f.bodies_ok += 1;
                        }
                    }
                }
            }
        }
    }
    None
}

fn c07(case: &Rc<Case>, m: &Outcome, mode: Mode) -> Option<Violation> {
    let r = exec::run(case, mode, Via::Node, None, vec![], HARD);
    let ctx = || format!("{mode:?} {} on {:?} via {}", case.render(), case.input, via(case));
    if let Some(p) = &r.panicked {
        return if p == "runaway" {
            viol("parse does not end", format!("{}: more than {HARD} sub-parser attempts (reference: {})", ctx(), m.entries))
        } else {
            viol("the library panics", format!("{}: {p}", ctx()))
        };
    }
    if let Some(x) = accounting(case, &r.log) {
        return viol("superfluous attempt", format!("{}: {x}", ctx()));
    }
    if m.cancelled && r.log == m.log && r.entries > m.entries {
        return viol("work goes on after everything refuses", format!("{}: {} attempts after {} logged events, due {}", ctx(), r.entries, r.log.len(), m.entries));
    }
    None
}

// ---------------------------------------------------------------- C06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scenario {
    sessions: Vec<Case>,
    guests: Vec<Case>,
    check: Vec<bool>,
    /// Which session runs at each yield point (modulo the number of live ones).
    schedule: Vec<u8>,
    repeat: usize,
    /// How many parses follow each other on one thread at the end.
    #[serde(default)]
    churn: usize,
}

fn gen_scenario(r: &mut Rng) -> Scenario {
    let n = r.range(2, 4);
    let small = |r: &mut Rng| loop {
        let f = *r.pick(&[Focus::Stack, Focus::Generic, Focus::Rules]);
        let c = gen_case(r, f);
        if model::run(&c).entries <= 400 {
            return compact(&c);
        }
    };
    let mut sessions: Vec<Case> = (0..n).map(|_| small(r)).collect();
    if r.chance(1, 3) {
        // The same program over different inputs: shared caches would be confused by it.
        let c = sessions[0].clone();
        for s in sessions.iter_mut().skip(1) {
            s.nodes = c.nodes.clone();
            s.root = c.root;
            let m = s.boundaries().len();
            s.plan.leaves = (0..c.plan.leaves.len())
                .map(|i| (0..m).map(|j| c.plan.leaves[i].get((j + 1) % c.plan.leaves[i].len().max(1)).cloned().unwrap_or(Out::Fail(vec![]))).collect())
                .collect();
        }
    }
    let guests: Vec<Case> = (0..r.below(3)).map(|_| small(r)).collect();
    for s in sessions.iter_mut() {
        let k = s.plan.leaves.iter().flatten().count();
        if k > 0 && !guests.is_empty() && r.chance(1, 2) {
            for _ in 0..r.range(1, 3) {
                let l = r.below(s.plan.leaves.len());
                let p = r.below(s.plan.leaves[l].len());
                s.plan.leaves[l][p] = Out::Nested(r.below(guests.len()));
            }
        }
        if k > 0 && r.chance(1, 3) {
            s.plan.transient.push((r.below(12) as u64, Out::Panic));
            s.plan.transient.sort_by_key(|x| x.0);
            s.plan.transient.dedup_by_key(|x| x.0);
        }
    }
    let len = r.range(4, 400);
    let burst = r.range(1, 5);
    let mut schedule = vec![];
    while schedule.len() < len {
        let who = r.below(8) as u8;
        for _ in 0..r.range(1, burst) {
            schedule.push(who);
        }
    }
    let check = (0..sessions.len() + guests.len()).map(|_| r.chance(1, 3)).collect();
    let repeat = *r.pick(&[1, 1, 1, 2, 20]);
    let tiny = sessions.iter().all(|s| model::run(s).entries <= 60);
    let churn = match r.below(400) {
        0..=2 if tiny => 20_000,
        0..=15 => 300,
        _ => 0,
    };
    if churn > 0 && r.chance(2, 3) {
        // Most of them panic, some time after they began.
        for s in sessions.iter_mut().filter(|s| !s.plan.leaves.is_empty()) {
            if !s.plan.transient.iter().any(|x| x.1 == Out::Panic) {
                s.plan.transient.insert(0, (0, Out::Panic));
                s.plan.transient.dedup_by_key(|x| x.0);
            }
        }
    }
    Scenario { sessions, guests, check, schedule, repeat, churn }
}

struct Sched {
    state: Mutex<SchedState>,
    cv: Condvar,
}
struct SchedState {
    alive: Vec<usize>,
    current: usize,
    schedule: Vec<u8>,
    at: usize,
    switches: u64,
    trace: u64,
}
impl Sched {
    fn next(st: &mut SchedState) {
        if st.alive.is_empty() {
            return;
        }
        if let Some(w) = st.schedule.get(st.at) {
            st.at += 1;
            let who = st.alive[*w as usize % st.alive.len()];
            if who != st.current {
                st.switches += 1;
            }
            st.current = who;
        } else if !st.alive.contains(&st.current) {
            st.current = st.alive[0];
        }
        st.trace = mix(st.trace, st.current as u64);
    }
    fn wait(&self, me: usize) {
        let mut st = self.state.lock().unwrap();
        while st.current != me {
            st = self.cv.wait(st).unwrap();
        }
    }
    fn step(&self, me: usize) {
        let mut st = self.state.lock().unwrap();
        Self::next(&mut st);
        if st.current == me {
            return;
        }
        self.cv.notify_all();
        while st.current != me {
            st = self.cv.wait(st).unwrap();
        }
    }
    fn finish(&self, me: usize) {
        let mut st = self.state.lock().unwrap();
        st.alive.retain(|x| *x != me);
        if st.current == me {
            if let Some(f) = st.alive.first() {
                st.current = *f;
            }
        }
        Self::next(&mut st);
        self.cv.notify_all();
    }
}

fn mode_of(sc: &Scenario, i: usize) -> Mode {
    if *sc.check.get(i).unwrap_or(&false) {
        Mode::Check
    } else {
        Mode::Parse
    }
}

fn solo(case: &Case, mode: Mode) -> Real {
    exec::run(&Rc::new(case.clone()), mode, Via::Node, None, vec![], HARD)
}

/// Solo run in a thread of its own, so that nothing thread-local is shared.
fn solo_fresh(case: &Case, mode: Mode) -> Real {
    let c = case.clone();
    std::thread::Builder::new().stack_size(16 << 20).spawn(move || solo(&c, mode)).unwrap().join().unwrap()
}

fn c06(sc: &Scenario, res: &mut RunResult) -> Option<Violation> {
    let n = sc.sessions.len();
    let all: Vec<(&Case, Mode)> = sc.sessions.iter().chain(&sc.guests).enumerate().map(|(i, c)| (c, mode_of(sc, i))).collect();
    let alone: Vec<Real> = all.iter().map(|(c, m)| solo_fresh(c, *m)).collect();
    let differs = |what: &str, i: usize, a: &Real, b: &Real| -> Option<Violation> {
        if a == b {
            return None;
        }
        let at = diverge(&a.log, &b.log);
        viol(
            format!("{what}: a parse behaves differently than alone"),
            format!(
                "parse {i} {} on {:?}\n alone: ok={:?} err={:?} panicked={:?}\n {what}: ok={:?} err={:?} panicked={:?}\n first differing event {at:?}: {:?} / {:?}",
                all[i].0.render(),
                all[i].0.input,
                a.ok.as_ref().map(|x| x.0),
                a.err,
                a.panicked,
                b.ok.as_ref().map(|x| x.0),
                b.err,
                b.panicked,
                at.and_then(|k| a.log.get(k)),
                at.and_then(|k| b.log.get(k)),
            ),
        )
    };
    for _round in 0..sc.repeat.max(1) {
        let sched = Arc::new(Sched {
            state: Mutex::new(SchedState { alive: (0..n).collect(), current: 0, schedule: sc.schedule.clone(), at: 0, switches: 0, trace: 0 }),
            cv: Condvar::new(),
        });
        let handles: Vec<_> = (0..n)
            .map(|i| {
                let sched = sched.clone();
                let case = sc.sessions[i].clone();
                let mode = mode_of(sc, i);
                let guests = sc.guests.clone();
                let modes: Vec<Mode> = (0..guests.len()).map(|g| mode_of(sc, n + g)).collect();
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn(move || {
                        sched.wait(i);
                        let results: Rc<RefCell<Vec<(usize, Real)>>> = Rc::default();
                        let s2 = sched.clone();
                        let hook: Hook = Rc::new(move |_| s2.step(i));
                        let gs: Vec<Guest> = guests
                            .iter()
                            .enumerate()
                            .map(|(g, c)| {
                                let c = Rc::new(c.clone());
                                let results = results.clone();
                                let hook = hook.clone();
                                let m = modes[g];
                                Rc::new(move || {
                                    let r = exec::run(&c, m, Via::Node, Some(hook.clone()), vec![], HARD);
                                    results.borrow_mut().push((g, r));
                                }) as Guest
                            })
                            .collect();
                        let r = exec::run(&Rc::new(case), mode, Via::Node, Some(hook), gs, HARD);
                        sched.finish(i);
                        let v = results.borrow().clone();
                        (r, v)
                    })
                    .unwrap()
            })
            .collect();
        let outs: Vec<_> = handles.into_iter().map(|h| h.join()).collect();
        {
            let st = sched.state.lock().unwrap();
            res.count("context_switches", st.switches);
            res.history = mix(res.history, st.trace);
        }
        for (i, o) in outs.into_iter().enumerate() {
            let Ok((r, gs)) = o else {
                return viol("harness thread died", format!("session {i}"));
            };
            res.steps += r.entries;
            res.history = mix(res.history, hash_log(&r.log));
            if r.panicked.as_deref() == Some("injected") {
                res.count("panic", 1);
            }
            if r.panicked.is_none() && sc.sessions[i].plan.cancel_at < r.entries {
                res.count("cancel", 1);
            }
            res.count("interleaved_parse", 1);
            if let Some(v) = differs("interleaved", i, &alone[i], &r) {
                return Some(v);
            }
            for (g, r) in gs {
                res.count("nested_parse", 1);
                res.steps += r.entries;
                if let Some(v) = differs("nested", n + g, &alone[n + g], &r) {
                    return Some(v);
                }
            }
        }
    }
    if sc.churn > 0 {
        // One thread that parses again and again, whatever became of the parse before.
        let cases: Vec<(Case, Mode)> = (0..n).map(|i| (sc.sessions[i].clone(), mode_of(sc, i))).collect();
        let due: Vec<Real> = alone[..n].to_vec();
        let churn = sc.churn;
        let odd = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                let mut panics = 0u64;
                for k in 0..churn {
                    let i = k % cases.len();
                    let r = solo(&cases[i].0, cases[i].1);
                    panics += r.panicked.is_some() as u64;
                    if r != due[i] {
                        return (Some((k, i, r)), panics);
                    }
                }
                (None, panics)
            })
            .unwrap()
            .join();
        let Ok((odd, panics)) = odd else { return viol("harness thread died", "churn") };
        res.count("parse on a thread that parsed before", sc.churn as u64);
        res.count("panic on a thread that parses on", panics);
        if let Some((k, i, r)) = odd {
            return differs(&format!("after {k} parses on its thread"), i, &alone[i], &r).map(|v| Violation { class: "after other parses on its thread: a parse behaves differently than alone".into(), ..v });
        }
    }
    // After everything, on this (long-lived) thread.
    for (i, (c, m)) in all.iter().enumerate() {
        let r = solo(c, *m);
        res.count("parse_after", 1);
        if let Some(v) = differs("afterwards", i, &alone[i], &r) {
            return Some(v);
        }
    }
    None
}

fn shrink_scenario(sc: &Scenario) -> Vec<Scenario> {
    let mut out = vec![];
    if sc.sessions.len() > 1 {
        for i in 0..sc.sessions.len() {
            let mut d = sc.clone();
            d.sessions.remove(i);
            d.check.remove(i);
            out.push(d);
        }
    }
    if sc.repeat > 1 {
        for k in [1, sc.repeat / 2, sc.repeat - 1] {
            if k < sc.repeat && k > 0 {
                let mut d = sc.clone();
                d.repeat = k;
                out.push(d);
            }
        }
    }
    for k in [0, sc.churn / 2, sc.churn - sc.churn / 8] {
        if k < sc.churn {
            let mut d = sc.clone();
            d.churn = k;
            out.push(d);
        }
    }
    for k in [0, sc.schedule.len() / 2, sc.schedule.len().saturating_sub(1)] {
        if k < sc.schedule.len() {
            let mut d = sc.clone();
            d.schedule.truncate(k);
            out.push(d);
        }
    }
    for i in 0..sc.sessions.len() {
        for c in shrink_case(&sc.sessions[i]) {
            let mut d = sc.clone();
            d.sessions[i] = c;
            out.push(d);
        }
    }
    for i in 0..sc.guests.len() {
        for c in shrink_case(&sc.guests[i]) {
            let mut d = sc.clone();
            d.guests[i] = c;
            out.push(d);
        }
    }
    out
}

// ---------------------------------------------------------------- harness

fn focus(prop: &str, r: &mut Rng) -> Focus {
    match prop {
        "C01" => *r.pick(&[Focus::Stack, Focus::Stack, Focus::Stack, Focus::Generic]),
        "C04" | "C05" => *r.pick(&[Focus::Rules, Focus::Rules, Focus::Rules, Focus::Stack]),
        "C07" => *r.pick(&[Focus::Bounded, Focus::Generic]),
        _ => *r.pick(&[Focus::Stack, Focus::Generic, Focus::Rules, Focus::Bounded]),
    }
}

fn generate(prop: &str, seed: u64) -> Value {
    let mut r = Rng::new(seed);
    if prop == "C06" {
        return json!({"scenario": gen_scenario(&mut r)});
    }
    let f = focus(prop, &mut r);
    let mut c = gen_case(&mut r, f);
    match prop {
        "C01" => {
            if matches!(c.api, Api::Whole | Api::Partial) && r.chance(1, 2) {
                c.api = Api::With;
            }
        }
        "C02" => {
            // Outcomes depend on place only, not on how often the library happens to look.
            c.plan.transient.clear();
            c.plan.cancel_at = u64::MAX;
        }
        "C05" if r.chance(2, 3) => {
            c.plan.cancel_at = u64::MAX;
            c.api = *r.pick(&[Api::Partial, Api::With]);
            if c.api == Api::Partial {
                c.start = 0;
                c.stack.clear();
            }
        }
        "C07" if r.chance(1, 2) => c.plan.cancel_at = r.range(1, 60) as u64,
        _ => {}
    }
    json!({"program": compact(&c)})
}

fn evaluate(prop: &str, v: &Value) -> RunResult {
    let mut res = RunResult { case: v.clone(), ..Default::default() };
    if prop == "C06" {
        let sc: Scenario = serde_json::from_value(v["scenario"].clone()).expect("scenario");
        res.violation = c06(&sc, &mut res);
        res.nontrivial = sc.sessions.len() > 1 && res.counters.get("context_switches").copied().unwrap_or(0) > 2;
        if res.nontrivial {
            res.sample = Some(sc.sessions.iter().map(|c| format!("{} on {:?}", c.render(), c.input)).collect::<Vec<_>>().join(" || "));
        }
        return res;
    }
    let case: Rc<Case> = Rc::new(serde_json::from_value(v["program"].clone()).expect("program"));
    let m = model::run(&case);
    res.steps = m.entries;
    res.history = mix(hash_log(&m.log), sim::rng::hash_str(&case.input));
    let s = &m.stats;
    for (k, n) in [
        ("sub-parser failure", s.fail_clean),
        ("sub-parser failure after dirtying the stack", s.fail_dirty),
        ("sub-parser match with stack operations", s.match_ops),
        ("sub-parser stack error", s.special),
        ("transient outcome", s.transient),
        ("cancellation refusals", s.cancels),
        ("rollback of a changed stack", s.rollbacks_dirty),
        ("rule applications", s.rules),
        ("accepted", m.ok.is_some() as u64),
        ("rejected", m.ok.is_none() as u64),
        ("attempt nesting of 3 or more", (s.max_attempt_depth >= 3) as u64),
        ("end of input required", whole(case.api) as u64),
        ("resumed with the same stack and tracker", case.resumes() as u64),
    ] {
        res.count(k, n);
    }
    res.nontrivial = match prop {
        "C01" => s.rollbacks_dirty > 0,
        "C04" => m.ok.is_none() && !m.report.groups.is_empty(),
        "C05" => m.ok.as_ref().is_some_and(|x| !x.2.is_empty()),
        "C07" => m.entries >= 4,
        _ => m.entries >= 4 && (s.fail_clean + s.fail_dirty + s.special > 0 || m.log.iter().any(|e| matches!(e, Ev::Exit { pos: u32::MAX, .. }))),
    };
    res.violation = match prop {
        "C01" => c01(&case, &m, Mode::Parse).or_else(|| c01(&case, &m, Mode::Check)),
        "C02" => c02(&case),
        "C03" => c03(&case, &m, Mode::Parse).or_else(|| c03(&case, &m, Mode::Check)).or_else(|| {
            if case.plan.transient.is_empty() && case.plan.cancel_at == u64::MAX && !m.cancelled && m.entries < 300 {
                never_failing(&case)
            } else {
                None
            }
        }),
        "C04" => c04(&case, &m, Mode::Parse).or_else(|| c04(&case, &m, Mode::Check)),
        "C05" => c05(&case, &m),
        "C07" => c07(&case, &m, Mode::Parse).or_else(|| c07(&case, &m, Mode::Check)),
        _ => panic!("unknown property {prop}"),
    };
    if res.nontrivial {
        res.sample = Some(format!("{} on {:?} via {}, {} steps", case.render(), case.input, via(&case), m.entries));
    }
    res
}

impl Harness for Engine {
    fn info(&self, prop: &str) -> Info {
        Info {
            level: "exploration",
            rule: match prop {
                "C01" => "one run = one random program, input, initial stack and sub-parser outcome plan, executed by the real combinators and the reference evaluator in lockstep; non-trivial: at least one attempt was abandoned after it had changed the stack; distinct by hash of the full event history",
                "C04" => "as C03; non-trivial: the run fails with at least one tracked expectation; distinct by hash of the full event history",
                "C05" => "as C03; non-trivial: the run succeeds with at least one pair; distinct by hash of the full event history",
                "C06" => "one run = 2-4 sessions on threads released one at a time by the seeded scheduler at every sub-parser call, with nested parses, panics and cancellations; non-trivial: at least 3 context switches; distinct by hash of schedule and histories",
                _ => "one run = one random program, input and sub-parser outcome plan, executed by the real combinators and compared; non-trivial: at least 4 sub-parser steps including a failure; distinct by hash of the full event history",
            },
            real: &["pest3_core combinators, built-in parsers, tracker, pairs, entry points", "rules generated by pest3_derive from a grammar", "pest 2 Stack (dependency)"],
            stub: &["sub-parsers (outcomes decided by the simulator through the public TypedNode trait)"],
            assumptions: &["children of a combinator are reached through type-erased sub-parsers, so inlining-specific miscompilation is not covered", "the pest 2 Stack dependency is part of the system under test but not expected to change"],
            step_unit: "sub-parser calls",
            fault_kinds: if prop == "C06" {
                &["panic", "cancel", "context_switches", "nested_parse"]
            } else {
                &["sub-parser failure", "sub-parser failure after dirtying the stack", "sub-parser match with stack operations", "sub-parser stack error", "transient outcome", "cancellation refusals"]
            },
            quick_runs: if prop == "C06" { 48_000 } else { 2_400_000 },
            thorough_runs: if prop == "C06" { 1_500_000 } else { 60_000_000 },
            quick_cap: 80,
            thorough_cap: 600,
            workers: 8,
        }
    }
    fn run(&self, prop: &str, run_seed: u64, _index: u64) -> RunResult {
        evaluate(prop, &generate(prop, run_seed))
    }
    fn replay(&self, prop: &str, case: &Value) -> RunResult {
        evaluate(prop, case)
    }
    fn generate(&self, prop: &str, run_seed: u64, _index: u64) -> Value {
        generate(prop, run_seed)
    }
    fn shrink(&self, prop: &str, case: &Value) -> Vec<Value> {
        if prop == "C06" {
            let sc: Scenario = serde_json::from_value(case["scenario"].clone()).unwrap();
            return shrink_scenario(&sc).into_iter().map(|s| json!({"scenario": s})).collect();
        }
        let c: Case = serde_json::from_value(case["program"].clone()).unwrap();
        shrink_case(&c).into_iter().map(|c| json!({"program": compact(&c)})).collect()
    }
    fn size(&self, prop: &str, case: &Value) -> usize {
        if prop == "C06" {
            let sc: Scenario = serde_json::from_value(case["scenario"].clone()).unwrap();
            return sc.sessions.iter().chain(&sc.guests).map(|c| c.size()).sum::<usize>() + sc.schedule.len() + sc.repeat * 5 + 50 * sc.sessions.len();
        }
        let c: Case = serde_json::from_value(case["program"].clone()).unwrap();
        c.size()
    }
}

fn main() {
    // Deep recursion of the simulated programs must not be mistaken for a fault.
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(|| sim::sup::main(&Engine)).unwrap();
    let _ = h.join();
}
