//! Baton scheduler: exactly one of several real threads runs at a time, and a seeded generator
//! decides at every step which one continues.
use crate::rng::{mix, Rng};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

struct State {
    alive: Vec<usize>,
    current: usize,
    rng: Rng,
    steps: u64,
    switches: u64,
    trace: u64,
    forced: u64,
}

pub struct Baton {
    state: Mutex<State>,
    cv: Condvar,
}

impl Baton {
    pub fn new(n: usize, seed: u64) -> Self {
        let mut rng = Rng::new(seed);
        let current = rng.below(n);
        Baton {
            state: Mutex::new(State { alive: (0..n).collect(), current, rng, steps: 0, switches: 0, trace: 7, forced: 0 }),
            cv: Condvar::new(),
        }
    }
    fn pick(st: &mut State) {
        if st.alive.is_empty() {
            return;
        }
        let k = st.rng.below(st.alive.len());
        if st.alive[k] != st.current {
            st.switches += 1;
        }
        st.current = st.alive[k];
        st.steps += 1;
        st.trace = mix(st.trace, st.current as u64);
    }
    /// Waits for the baton.
    pub fn wait(&self, me: usize) {
        let mut st = self.state.lock().unwrap();
        while st.current != me {
            let seen = st.steps;
            let (g, t) = self.cv.wait_timeout(st, Duration::from_secs(2)).unwrap();
            st = g;
            // The holder is blocked on a lock of the code under test: let another one go on.
            if t.timed_out() && st.steps == seen && st.current != me && st.alive.first() == Some(&me) {
                st.forced += 1;
                st.current = me;
                st.steps += 1;
            } else if t.timed_out() && st.steps == seen && st.current != me && st.alive.first() == Some(&st.current) && st.alive.get(1) == Some(&me) {
                st.forced += 1;
                st.current = me;
                st.steps += 1;
            }
        }
    }
    /// A scheduling point.
    pub fn step(&self, me: usize) {
        {
            let mut st = self.state.lock().unwrap();
            if st.current == me {
                Self::pick(&mut st);
                self.cv.notify_all();
            }
        }
        self.wait(me);
    }
    /// The thread is done.
    pub fn leave(&self, me: usize) {
        let mut st = self.state.lock().unwrap();
        st.alive.retain(|x| *x != me);
        Self::pick(&mut st);
        self.cv.notify_all();
    }
    /// (steps, switches, trace, forced hand-overs)
    pub fn stats(&self) -> (u64, u64, u64, u64) {
        let st = self.state.lock().unwrap();
        (st.steps, st.switches, st.trace, st.forced)
    }
}
