//! The simulated world around the tree: the registry of live keys and values, the
//! fault plan, the callback counters and the scheduler hook. Exactly one thread
//! runs at any time (see sched.rs), so the world is plain global state.
use crate::scenario::NCODE;
use crate::{rng, sched, sys};
use std::cell::UnsafeCell;
use std::collections::HashSet;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum FK {
    None = 0,
    Cmp,
    CloneK,
    CloneV,
    DropK,
    DropV,
    Src,
    Alloc,
    Lie,
}
pub const NFK: usize = 9;
pub const FK_NAMES: [&str; NFK] = [
    "none", "cmp", "clonek", "clonev", "dropk", "dropv", "src", "alloc", "lie",
];
impl FK {
    pub fn parse(s: &str) -> Option<FK> {
        use FK::*;
        let all = [None, Cmp, CloneK, CloneV, DropK, DropV, Src, Alloc, Lie];
        FK_NAMES.iter().position(|n| *n == s).map(|i| all[i])
    }
}

/// Rare conditions counted so that a workload that never reaches them shows.
#[derive(Clone, Copy)]
#[repr(usize)]
pub enum P {
    AbortBefore,
    AbortAfter,
    AbortStream,
    AbortBulk,
    AbortOther,
    DropPanic,
    WildOp,
    WildPanic,
    RangePanic,
    LoadOrderPanic,
    EmptiedRefilled,
    MutateWhileShared,
    CursorWhileOtherMutated,
    HeldWrite,
    OwnedBothEnds,
    Retry,
    Deep,
    TaskDied,
    LockWait,
    MsgLost,
    MsgDup,
    MsgReorder,
    RoRead,
    Unequal,
    Unshared,
    Retired,
}
pub const PROBES: [&str; 26] = [
    "abort_left_before", "abort_left_after", "abort_left_stream_prefix", "abort_left_bulk_subset",
    "abort_elsewhere", "drop_panicked", "op_on_unordered_tree", "panic_on_unordered_tree",
    "inverted_range_panicked", "unordered_load_panicked", "emptied_then_refilled",
    "mutated_while_shared", "cursor_open_while_clone_mutated", "held_reference_written",
    "owned_iterator_from_both_ends", "retry_after_abort", "tree_of_4_or_more_levels", "task_died",
    "lock_waited", "message_lost", "message_duplicated", "message_reordered", "shared_read_tree",
    "unequal_trees_compared", "copied_once_then_own", "retired_with_wrong_length",
];
pub const NPROBE: usize = PROBES.len();
#[inline]
pub fn probe(p: P) {
    w().probes[p as usize] += 1;
}

/// Payload of an injected panic.
pub struct SimPanic;

pub const MAXT: usize = 5;

#[derive(Clone, Copy)]
pub struct Ctx {
    pub armed: FK,
    pub gate: bool,
    pub left: u32,
    pub fired: FK,
    pub cmps: u64,
    pub calls: u64,
    pub kclones: u64,
    pub vclones: u64,
    /// nodes of the simulated pointer kind: accesses, and new ones
    pub visits: u64,
    pub made: u64,
    pub lie_mode: u32,
    pub lie_rng: u64,
}
const CTX0: Ctx = Ctx {
    armed: FK::None,
    gate: false,
    left: 0,
    fired: FK::None,
    cmps: 0,
    calls: 0,
    kclones: 0,
    vclones: 0,
    visits: 0,
    made: 0,
    lie_mode: 0,
    lie_rng: 0,
};

pub struct World {
    pub objs: Vec<u8>,
    pub live: i64,
    /// nodes of the simulated pointer kind: alive, and ever made
    pub nodes: i64,
    pub news: u64,
    pub ctx: [Ctx; MAXT],
    pub cur: usize,
    pub fired: [u64; NFK],
    pub callbacks: u64,
    pub run: u64,
    pub sched_on: bool,
    pub progress: u64,
    pub panic_msgs: [String; MAXT],
    pub step_info: (u32, u32),
    pub hist: u64,
    pub ops: [u64; NCODE],
    pub probes: [u64; NPROBE],
    pub states: HashSet<u64>,
    pub maxlen: usize,
}

struct G(UnsafeCell<Option<World>>);
unsafe impl Sync for G {}
static WORLD: G = G(UnsafeCell::new(None));

#[inline(always)]
pub fn w() -> &'static mut World {
    unsafe { (*WORLD.0.get()).as_mut().unwrap_unchecked() }
}
#[inline(always)]
pub fn ctx() -> &'static mut Ctx {
    let w = w();
    &mut w.ctx[w.cur]
}

/// What the running task's last panic said.
pub fn panic_msg() -> &'static mut String {
    let w = w();
    let c = w.cur;
    &mut w.panic_msgs[c]
}

pub fn init() {
    unsafe {
        *WORLD.0.get() = Some(World {
            objs: Vec::with_capacity(1 << 16),
            live: 0,
            nodes: 0,
            news: 0,
            ctx: [CTX0; MAXT],
            cur: 0,
            fired: [0; NFK],
            callbacks: 0,
            run: 0,
            sched_on: false,
            progress: 0,
            panic_msgs: std::array::from_fn(|_| String::with_capacity(4096)),
            step_info: (0, 0),
            hist: 0,
            ops: [0; NCODE],
            probes: [0; NPROBE],
            states: HashSet::with_capacity(1 << 12),
            maxlen: 0,
        });
    }
    std::panic::set_hook(Box::new(|info| {
        let msg = panic_msg();
        msg.clear();
        use std::fmt::Write;
        let loc = info.location();
        let (f, l) = loc.map(|l| (l.file(), l.line())).unwrap_or(("?", 0));
        let f = f.rsplit('/').next().unwrap_or(f);
        let p = info.payload();
        let m = p
            .downcast_ref::<&str>()
            .copied()
            .or_else(|| p.downcast_ref::<String>().map(|s| s.as_str()))
            .unwrap_or("?");
        let m: String = m.chars().take(200).collect();
        let _ = write!(msg, "{}:{}: {}", f, l, m.replace(['\n', '\t'], " "));
    }));
}

/// Forget everything about the previous run.
pub fn reset(run: u64, lie_seed: u64) {
    let w = w();
    w.objs.clear();
    w.objs.push(0);
    w.live = 0;
    w.nodes = 0;
    w.news = 0;
    w.ctx = [CTX0; MAXT];
    for (i, c) in w.ctx.iter_mut().enumerate() {
        c.lie_rng = rng::mix(lie_seed ^ (i as u64) << 32);
    }
    w.cur = 0;
    w.run = run;
    w.sched_on = false;
    w.hist = 0;
}

/// Report a violation and stop this process: nothing after it can be trusted.
pub fn fatal(class: &str, msg: &str) -> ! {
    let w = w();
    let line = format!(
        "FAIL\t{}\t{}\tstep {} task {}: {}\n",
        w.run,
        class,
        w.step_info.0,
        w.step_info.1,
        msg.replace(['\n', '\t'], " ")
    );
    sys::write_all(1, line.as_bytes());
    sys::exit_now(10)
}

// ---- objects ----

pub const LIVE_K: u8 = 1;
pub const LIVE_V: u8 = 2;
pub const DEAD: u8 = 3;

pub fn birth(kind: u8) -> u32 {
    let w = w();
    let id = w.objs.len() as u32;
    w.objs.push(kind);
    w.live += 1;
    id
}

pub fn magic(id: u32, data: u64) -> u32 {
    (rng::mix(((id as u64) << 32) ^ data ^ 0x7061_6c6d) >> 16) as u32
}

#[inline]
pub fn check_obj(id: u32, data: u64, mg: u32, kind: u8, what: &str) {
    let w = w();
    let st = w.objs.get(id as usize).copied();
    if st != Some(kind) || magic(id, data) != mg {
        let why = match st {
            Some(DEAD) if magic(id, data) == mg => "stale (already dropped)",
            _ => "garbage (never initialised, freed or overwritten)",
        };
        fatal(
            if why.starts_with("stale") { "memory:use-after-drop" } else { "memory:garbage" },
            &format!("{} of a {} {}", what, why, if kind == LIVE_K { "key" } else { "value" }),
        );
    }
}

#[inline]
pub fn death(id: u32, data: u64, mg: u32, kind: u8) {
    let w = w();
    let st = w.objs.get(id as usize).copied();
    if magic(id, data) == mg && st == Some(DEAD) {
        fatal("memory:double-drop", if kind == LIVE_K { "key dropped twice" } else { "value dropped twice" });
    }
    check_obj(id, data, mg, kind, "drop");
    w.objs[id as usize] = DEAD;
    w.live -= 1;
}

// ---- callbacks ----

#[inline]
pub fn tick(kind: FK) {
    let w = w();
    w.callbacks += 1;
    let c = &mut w.ctx[w.cur];
    c.calls += 1;
    match kind {
        FK::CloneK => c.kclones += 1,
        FK::CloneV => c.vclones += 1,
        _ => {}
    }
    if w.sched_on {
        sched::yield_point();
    }
    let w = self::w();
    let c = &mut w.ctx[w.cur];
    if kind != FK::None && c.gate && c.armed == kind && !std::thread::panicking() {
        c.left = c.left.saturating_sub(1);
        if c.left == 0 {
            c.armed = FK::None;
            c.fired = kind;
            w.fired[kind as usize] += 1;
            std::panic::resume_unwind(Box::new(SimPanic));
        }
    }
}

/// The most comparisons one operation may ever make before it counts as hung.
pub const CMP_CAP: u64 = 200_000_000;

/// Called by every key comparison with the honest answer.
#[inline]
pub fn compare(honest: std::cmp::Ordering) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    {
        let c = ctx();
        c.cmps += 1;
        if c.cmps > CMP_CAP {
            fatal("hang:comparisons", "one operation made more comparisons than any operation can need");
        }
    }
    tick(FK::Cmp);
    let c = ctx();
    if c.gate && c.armed == FK::Lie {
        c.lie_rng = rng::mix(c.lie_rng);
        let r = c.lie_rng;
        let ans = match c.lie_mode % 8 {
            0 => [Less, Equal, Greater][(r % 3) as usize],
            1 => honest.reverse(),
            2 => Less,
            3 => Greater,
            4 => Equal,
            5 if r % 8 == 0 => [Less, Equal, Greater][((r >> 8) % 3) as usize],
            6 if r % 4 == 0 => honest.reverse(),
            7 if r % 2 == 0 => [Less, Greater][((r >> 8) % 2) as usize],
            _ => honest,
        };
        if ans != honest {
            c.fired = FK::Lie;
            w().fired[FK::Lie as usize] += 1;
        }
        return ans;
    }
    honest
}
