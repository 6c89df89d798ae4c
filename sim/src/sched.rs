//! The task scheduler. Tasks are real threads, of which exactly one holds the baton; it is
//! handed over only here, at callbacks of keys, values, nodes and streams, when a task
//! blocks, and when it ends. The choice is a pure function of the scenario.
use crate::rng::mix;
use crate::world::{self, w, MAXT};
use std::cell::UnsafeCell;
use std::sync::{Condvar, Mutex};

pub const MAIN: usize = MAXT;

#[derive(Clone, Debug, PartialEq)]
pub enum Plan {
    /// switch at yield point y with probability p/1000, both decided by mix(seed, y)
    Random { seed: u64, p: u32 },
    /// switch to the given task at exactly these yield points
    Explicit(Vec<(u64, u8)>),
}

#[derive(Clone, Copy, PartialEq)]
enum St {
    Run,
    Blocked,
    Done,
}

pub struct Sched {
    plan: Plan,
    next: usize,
    pub yields: u64,
    pub switches: u64,
    st: [St; MAXT],
    n: usize,
    trace_fd: i32,
    pub sig: u64,
}

struct G(UnsafeCell<Option<Sched>>);
unsafe impl Sync for G {}
static S: G = G(UnsafeCell::new(None));
static BATON: Mutex<usize> = Mutex::new(MAIN);
static CV: [Condvar; MAXT + 1] = [const { Condvar::new() }; MAXT + 1];

fn s() -> &'static mut Sched {
    unsafe { (*S.0.get()).as_mut().unwrap() }
}

pub fn begin(plan: Plan, n: usize, trace_fd: i32) {
    unsafe {
        *S.0.get() = Some(Sched {
            plan,
            next: 0,
            yields: 0,
            switches: 0,
            st: [St::Run; MAXT],
            n,
            trace_fd,
            sig: 0,
        });
    }
    w().sched_on = true;
}

/// After the last task is done: (yield points, switches, signature of the interleaving)
pub fn end() -> (u64, u64, u64) {
    w().sched_on = false;
    let sc = unsafe { (*S.0.get()).take().unwrap() };
    (sc.yields, sc.switches, sc.sig)
}

fn hand_to(t: usize) {
    let mut b = BATON.lock().unwrap_or_else(|e| e.into_inner());
    *b = t;
    CV[t].notify_all();
    drop(b);
}
fn wait_for(me: usize) {
    let mut b = BATON.lock().unwrap_or_else(|e| e.into_inner());
    while *b != me {
        b = CV[me].wait(b).unwrap_or_else(|e| e.into_inner());
    }
}

fn go(t: usize, me: usize) {
    let sc = s();
    sc.switches += 1;
    sc.sig = mix(sc.sig ^ (sc.yields << 3) ^ t as u64);
    w().cur = t;
    hand_to(t);
    wait_for(me);
    debug_assert_eq!(w().cur, me);
}

/// A point where the running task may be preempted.
pub fn yield_point() {
    let sc = s();
    let y = sc.yields;
    sc.yields += 1;
    let me = w().cur;
    if me >= MAXT {
        return;
    }
    let target = match &sc.plan {
        Plan::Random { seed, p } => {
            let r = mix(seed ^ mix(y));
            if r % 1000 < *p as u64 {
                Some(((r >> 20) % sc.n as u64) as usize)
            } else {
                None
            }
        }
        Plan::Explicit(v) => {
            while sc.next < v.len() && v[sc.next].0 < y {
                sc.next += 1;
            }
            if sc.next < v.len() && v[sc.next].0 == y {
                sc.next += 1;
                Some(v[sc.next - 1].1 as usize)
            } else {
                None
            }
        }
    };
    if let Some(t) = target {
        if t != me && t < sc.n && sc.st[t] == St::Run {
            record(y, t);
            go(t, me);
        }
    }
}

fn record(y: u64, t: usize) {
    let sc = s();
    if sc.trace_fd >= 0 {
        crate::sys::write_all(sc.trace_fd, format!("sw {} {}\n", y, t).as_bytes());
    }
}

fn lowest_runnable(except: usize) -> Option<usize> {
    let sc = s();
    (0..sc.n).find(|&t| t != except && sc.st[t] == St::Run)
}

/// The running task cannot go on: run someone else until `wake_all`.
pub fn block() {
    let me = w().cur;
    s().st[me] = St::Blocked;
    match lowest_runnable(me) {
        Some(t) => go(t, me),
        None => world::fatal("harness:deadlock", "all tasks blocked"),
    }
}
pub fn wake_all() {
    let sc = s();
    for st in sc.st.iter_mut() {
        if *st == St::Blocked {
            *st = St::Run;
        }
    }
}

/// Entry of a task thread: wait until it is given the baton for the first time.
pub fn task_start(me: usize) {
    wait_for(me);
}
/// End of a task thread: give the baton away for good.
pub fn task_end() {
    let me = w().cur;
    s().st[me] = St::Done;
    wake_all();
    match lowest_runnable(me) {
        Some(t) => {
            w().cur = t;
            hand_to(t);
        }
        None => {
            w().cur = 0;
            hand_to(MAIN);
        }
    }
}
/// The main thread starts task 0 and waits until all are done.
pub fn run_all() {
    w().cur = 0;
    hand_to(0);
    wait_for(MAIN);
}
