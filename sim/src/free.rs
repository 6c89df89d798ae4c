//! Threads that run freely, for the interpreter: the interpreter's own seeded scheduler may
//! switch between any two basic blocks, delays stores and reports races, so nothing here
//! takes turns and nothing here synchronises the tasks but what a user's program would.
//! Each handle has its own reference model; a task only ever looks at its own handles.
use crate::rng::{mix, Rng};
use palmtree::{Entry, PalmTree, SyncShared, TreeConfig};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Bound;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use typenum::{U4, U5, U6, U7};

thread_local!(static FUSE: Cell<u32> = Cell::new(0));
thread_local!(static SIG: Cell<u64> = Cell::new(0));
static VALS: AtomicI64 = AtomicI64::new(0);
/// Counts callbacks of all tasks, to tell interleavings apart; relaxed, so it orders nothing.
static PROGRESS: [AtomicU64; 3] = [const { AtomicU64::new(0) }; 3];
static SEQ: AtomicU64 = AtomicU64::new(0);

struct Bang;

fn tick() {
    let n = SEQ.fetch_add(1, Relaxed);
    SIG.with(|s| s.set(mix(s.get() ^ n)));
    FUSE.with(|f| {
        let n = f.get();
        if n > 0 {
            f.set(n - 1);
            if n == 1 {
                resume_unwind(Box::new(Bang));
            }
        }
    })
}

#[derive(Clone, Debug)]
struct K(u32);
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for K {}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for K {
    fn cmp(&self, o: &K) -> Ordering {
        tick();
        self.0.cmp(&o.0)
    }
}

/// A value on the heap, so that a stale copy is a read of freed memory.
#[derive(Debug)]
struct V(Box<u64>);
impl V {
    fn new(x: u64) -> V {
        VALS.fetch_add(1, Relaxed);
        V(Box::new(x))
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        tick();
        V::new(*self.0)
    }
}
impl Drop for V {
    fn drop(&mut self) {
        VALS.fetch_sub(1, Relaxed);
    }
}

macro_rules! cfg {
    ($n:ident, $b:ident, $l:ident) => {
        struct $n;
        impl<K, V> TreeConfig<K, V> for $n {
            type BranchSize = $b;
            type LeafSize = $l;
            type PointerKind = SyncShared;
        }
    };
}
cfg!(F44, U4, U4);
cfg!(F54, U5, U4);
cfg!(F45, U4, U5);
cfg!(F67, U6, U7);

type Model = BTreeMap<u32, u64>;
struct H<C: TreeConfig<K, V>> {
    t: PalmTree<K, V, C>,
    m: Model,
}

#[derive(Clone, Copy, Debug)]
struct Op {
    code: u32,
    a: u32,
    b: u32,
    c: u32,
    fuse: u32,
    /// Start only when another task has come this far (or after a while): (task, operations).
    /// The tasks see each other's progress through relaxed atomics, which order nothing else.
    wait: (u8, u8),
}

const NCODE: u32 = 26;
const NAMES: [&str; NCODE as usize] = [
    "get-common",
    "iter-common",
    "clone-common",
    "receive",
    "fetch",
    "insert",
    "insert",
    "insert_recursive",
    "remove",
    "remove",
    "remove_lowest",
    "remove_highest",
    "get_mut",
    "entry-insert",
    "entry-remove",
    "range_mut",
    "range_mut",
    "range",
    "clone",
    "clone",
    "into_iter",
    "append",
    "send",
    "publish",
    "drop",
    "drop",
];

struct World<C: TreeConfig<K, V>> {
    chan: Mutex<Vec<H<C>>>,
    public: Mutex<Option<H<C>>>,
    /// read by every task at once, without a lock
    common: H<C>,
}

/// The first thing that went wrong; the process stops there.
fn bad(class: &str, msg: String) -> ! {
    println!("FAIL\t0\t{}\t{}", class, msg.replace('\n', " "));
    std::process::exit(3)
}
fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) {
    if got != want {
        bad(&format!("model:{}", what), format!("{}: got {:?}, the private map says {:?}", what, got, want));
    }
}
fn whole<C: TreeConfig<K, V>>(what: &str, t: &PalmTree<K, V, C>, m: &Model) {
    let fuse = FUSE.with(|f| f.replace(0));
    same(what, t.len(), m.len());
    let got: Vec<(u32, u64)> = t.iter().map(|(k, v)| (k.0, *v.0)).take(m.len() + 2).collect();
    let want: Vec<(u32, u64)> = m.iter().map(|(k, v)| (*k, *v)).collect();
    same(what, got, want);
    FUSE.with(|f| f.set(fuse));
}

fn bounds(op: &Op, keys: u32) -> (Bound<u32>, Bound<u32>) {
    let (x, y) = (op.a % keys, op.b % keys);
    let (x, y) = (x.min(y), x.max(y));
    let s = match op.c % 3 {
        0 => Bound::Unbounded,
        1 => Bound::Included(x),
        _ => Bound::Excluded(x),
    };
    let e = match op.c / 3 % 3 {
        0 => Bound::Unbounded,
        1 => Bound::Included(y + 1),
        _ => Bound::Excluded(y + 1),
    };
    (s, e)
}
fn kb(b: Bound<u32>) -> Bound<K> {
    match b {
        Bound::Unbounded => Bound::Unbounded,
        Bound::Included(x) => Bound::Included(K(x)),
        Bound::Excluded(x) => Bound::Excluded(K(x)),
    }
}

fn build<C: TreeConfig<K, V>>(r: &mut Rng, n: u32, keys: u32) -> H<C> {
    let mut m = Model::new();
    for _ in 0..n {
        m.insert(r.u32(keys), r.next() >> 20);
    }
    let t = if r.permille(500) {
        PalmTree::load(m.iter().map(|(k, v)| (K(*k), V::new(*v))).collect::<Vec<_>>())
    } else {
        let mut t = PalmTree::new();
        for (k, v) in m.iter() {
            t.insert(K(*k), V::new(*v));
        }
        t
    };
    H { t, m }
}

struct Task<'w, C: TreeConfig<K, V>> {
    w: &'w World<C>,
    me: usize,
    hs: Vec<H<C>>,
    keys: u32,
    quiet: bool,
}

impl<C: TreeConfig<K, V>> Task<'_, C> {
    fn keep(&mut self, h: H<C>) {
        self.hs.push(h);
        if self.hs.len() > 3 {
            drop(self.hs.remove(0));
        }
    }
    fn step(&mut self, op: &Op) {
        let k = op.a % self.keys;
        let x = (op.b as u64) << 8 | op.code as u64;
        // operations on what the tasks share
        match op.code {
            0 => {
                let c = &self.w.common;
                same("get-common", c.t.get(&K(k)).map(|v| *v.0), c.m.get(&k).copied());
                return;
            }
            1 => return whole("iter-common", &self.w.common.t, &self.w.common.m),
            2 => {
                let c = H { t: self.w.common.t.clone(), m: self.w.common.m.clone() };
                return self.keep(c);
            }
            3 if !self.quiet => {
                let got = self.w.chan.lock().unwrap_or_else(|e| e.into_inner()).pop();
                if let Some(h) = got {
                    whole("received", &h.t, &h.m);
                    self.keep(h);
                }
                return;
            }
            4 if !self.quiet => {
                let got = {
                    let g = self.w.public.lock().unwrap_or_else(|e| e.into_inner());
                    g.as_ref().map(|h| H { t: h.t.clone(), m: h.m.clone() })
                };
                if let Some(h) = got {
                    whole("fetched", &h.t, &h.m);
                    self.keep(h);
                }
                return;
            }
            _ => {}
        }
        if self.hs.is_empty() {
            return self.keep(H { t: self.w.common.t.clone(), m: self.w.common.m.clone() });
        }
        let i = op.c as usize / 16 % self.hs.len();
        let keys = self.keys;
        let h = &mut self.hs[i];
        match op.code {
            5 | 6 => same("insert", h.t.insert(K(k), V::new(x)).map(|v| *v.0), h.m.insert(k, x)),
            7 => same("insert_recursive", h.t.insert_recursive(K(k), V::new(x)).map(|v| *v.0), h.m.insert(k, x)),
            8 | 9 => same("remove", h.t.remove(&K(k)).map(|(k, v)| (k.0, *v.0)), h.m.remove_entry(&k)),
            10 => same("remove_lowest", h.t.remove_lowest().map(|(k, v)| (k.0, *v.0)), h.m.pop_first()),
            11 => same("remove_highest", h.t.remove_highest().map(|(k, v)| (k.0, *v.0)), h.m.pop_last()),
            12 => {
                let got = h.t.get_mut(&K(k)).map(|v| std::mem::replace(&mut *v.0, x));
                same("get_mut", got, h.m.get_mut(&k).map(|v| std::mem::replace(v, x)));
            }
            13 => {
                let got = match h.t.entry(K(k)) {
                    Entry::Occupied(e) => *e.into_mut().0,
                    Entry::Vacant(e) => *e.insert(V::new(x)).0,
                };
                same("entry", got, *h.m.entry(k).or_insert(x));
            }
            14 => {
                let got = match h.t.entry(K(k)) {
                    Entry::Occupied(e) => Some(*e.remove().0),
                    Entry::Vacant(_) => None,
                };
                same("entry-remove", got, h.m.remove(&k));
            }
            15 | 16 => {
                let (s, e) = bounds(op, keys);
                for (_, v) in h.t.range_mut((kb(s), kb(e))) {
                    *v.0 = v.0.wrapping_add(x);
                }
                for (_, v) in h.m.range_mut((s, e)) {
                    *v = v.wrapping_add(x);
                }
            }
            17 => {
                let (s, e) = bounds(op, keys);
                let got: Vec<_> = h.t.range((kb(s), kb(e))).map(|(k, v)| (k.0, *v.0)).collect();
                let want: Vec<_> = h.m.range((s, e)).map(|(k, v)| (*k, *v)).collect();
                same("range", got, want);
            }
            18 | 19 => {
                let c = H { t: h.t.clone(), m: h.m.clone() };
                self.keep(c);
                return;
            }
            20 => {
                // consumed from both ends, and given up part way
                let h = self.hs.remove(i);
                let mut it = h.t.into_iter();
                let mut m = h.m;
                for j in 0..op.b % 8 {
                    if (op.c >> j) & 1 == 0 {
                        same("into_iter", it.next().map(|(k, v)| (k.0, *v.0)), m.pop_first());
                    } else {
                        same("into_iter-back", it.next_back().map(|(k, v)| (k.0, *v.0)), m.pop_last());
                    }
                }
                return;
            }
            21 => {
                let mut h = self.hs.remove(i);
                if let Some(o) = self.hs.first() {
                    let (o, om) = (o.t.clone(), &o.m);
                    if op.c & 1 == 0 {
                        h.t.append_left(o);
                        for (k, v) in om {
                            h.m.entry(*k).or_insert(*v);
                        }
                    } else {
                        h.t.append_right(o);
                        for (k, v) in om {
                            h.m.insert(*k, *v);
                        }
                    }
                    whole("append", &h.t, &h.m);
                }
                return self.keep(h);
            }
            22 => {
                // sent: moved, or a copy (so the receiver may see both, or an old one)
                if self.quiet {
                    return;
                }
                let h = if op.c & 1 == 0 {
                    H { t: h.t.clone(), m: h.m.clone() }
                } else {
                    self.hs.remove(i)
                };
                let lost = {
                    let mut g = self.w.chan.lock().unwrap_or_else(|e| e.into_inner());
                    let at = op.b as usize % (g.len() + 1);
                    g.insert(at, h);
                    if g.len() > 4 {
                        g.pop()
                    } else {
                        None
                    }
                };
                drop(lost);
                return;
            }
            23 => {
                if self.quiet {
                    drop(self.hs.remove(i));
                    return;
                }
                let h = H { t: h.t.clone(), m: h.m.clone() };
                let old = self.w.public.lock().unwrap_or_else(|e| e.into_inner()).replace(h);
                drop(old);
                return;
            }
            24 | 25 => {
                drop(self.hs.remove(i));
                return;
            }
            _ => {}
        }
        // not on every call, because this is slow
        if op.b % 3 == 0 {
            let h = &self.hs[i];
            whole("contents", &h.t, &h.m);
        }
    }
    /// Whether the task is still alive.
    fn run(&mut self, ops: &[(usize, Op)]) -> bool {
        for (n, (_, op)) in ops.iter().enumerate() {
            PROGRESS[self.me].store(n as u64, Relaxed);
            for _ in 0..100 {
                if PROGRESS[op.wait.0 as usize].load(Relaxed) >= op.wait.1 as u64 {
                    break;
                }
                std::thread::yield_now();
            }
            FUSE.with(|f| f.set(op.fuse));
            let r = catch_unwind(AssertUnwindSafe(|| self.step(op)));
            FUSE.with(|f| f.set(0));
            if let Err(e) = r {
                if !e.is::<Bang>() {
                    let m = e.downcast_ref::<String>().cloned();
                    let m = m.or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    bad("panic:task", format!("an operation panicked: {}", m));
                }
                return false;
            }
        }
        true
    }
}

fn program(r: &mut Rng, tasks: usize, keys: u32, faults: bool) -> Vec<Vec<(usize, Op)>> {
    let mut weight = [0u32; NCODE as usize];
    for w in weight.iter_mut() {
        *w = *r.pick(&[0, 1, 1, 2, 4]);
    }
    let sum: u32 = weight.iter().sum::<u32>().max(1);
    let mut at = 0;
    (0..tasks)
        .map(|t| {
            (0..r.range(2, 9))
                .map(|_| {
                    let mut x = r.u32(sum);
                    let code = (0..NCODE).find(|c| {
                        let w = weight[*c as usize];
                        if x < w {
                            return true;
                        }
                        x -= w;
                        false
                    });
                    let fuse = if faults && r.permille(120) { r.logu(24) } else { 0 };
                    let wait = if r.permille(250) { (((t as u32 + 1 + r.u32(tasks as u32 - 1)) % tasks as u32) as u8, r.range(1, 9) as u8) } else { (0, 0) };
                    at += 1;
                    let op = Op {
                        code: code.unwrap_or(5),
                        a: r.u32(keys),
                        b: r.u32(1 << 16),
                        c: r.u32(1 << 16),
                        fuse,
                        wait,
                    };
                    (at - 1, op)
                })
                .collect()
        })
        .collect()
}

fn run<C>(r: &mut Rng, runno: u64, leaks: bool, skip: &BTreeSet<usize>, list: bool)
where
    C: TreeConfig<K, V> + 'static,
    PalmTree<K, V, C>: Send + Sync,
{
    let tasks = *r.pick(&[2, 2, 2, 3]);
    let keys = r.range(4, 40);
    let faults = r.permille(300);
    let quiet = r.permille(300);
    let n = r.range(0, keys);
    let common = build::<C>(r, n, keys);
    let prog = program(r, tasks, keys, faults);
    let mut armed = false;
    let prog: Vec<Vec<(usize, Op)>> =
        prog.into_iter().map(|t| t.into_iter().filter(|(i, _)| !skip.contains(i)).collect()).collect();
    for (t, ops) in prog.iter().enumerate() {
        for (i, op) in ops {
            armed |= op.fuse > 0;
            if list {
                println!("OP\t{}\ttask {}: {} {:?}", i, t, NAMES[op.code as usize], op);
            }
        }
    }
    let world = Arc::new(World { chan: Mutex::new(Vec::new()), public: Mutex::new(None), common });
    // trees of which two or more tasks start with a handle each, and nobody else has one
    let mut start: Vec<Vec<H<C>>> = (0..tasks).map(|_| Vec::new()).collect();
    for _ in 0..r.range(0, 2) {
        let n = r.range(1, keys);
        let h = build::<C>(r, n, keys);
        for s in start.iter_mut().skip(1) {
            if r.permille(800) {
                s.push(H { t: h.t.clone(), m: h.m.clone() });
            }
        }
        start[0].push(h);
    }
    let mut js = Vec::new();
    let mut ops = 0;
    for p in prog {
        ops += p.len();
        let hs = std::mem::take(&mut start[js.len()]);
        let (w, me) = (world.clone(), js.len());
        js.push(std::thread::spawn(move || {
            let mut t = Task { w: &w, me, hs, keys, quiet };
            let alive = t.run(&p);
            PROGRESS[me].store(99, Relaxed);
            let hs = std::mem::take(&mut t.hs);
            drop(t);
            drop(w);
            (alive, hs, SIG.with(|s| s.get()))
        }));
    }
    let (mut dead, mut sig) = (0, runno);
    for j in js {
        match j.join() {
            Ok((true, hs, g)) => {
                sig = mix(sig ^ g);
                for h in hs {
                    whole("final", &h.t, &h.m);
                }
            }
            Ok((false, hs, g)) => {
                sig = mix(sig ^ g);
                dead += 1;
                drop(hs);
            }
            Err(_) => bad("panic:thread", "a thread died outside an operation".into()),
        }
    }
    whole("common", &world.common.t, &world.common.m);
    if let Some(h) = world.public.lock().unwrap_or_else(|e| e.into_inner()).take() {
        whole("public", &h.t, &h.m);
    }
    for h in world.chan.lock().unwrap_or_else(|e| e.into_inner()).drain(..) {
        whole("channel", &h.t, &h.m);
    }
    drop(world);
    let left = VALS.load(Relaxed);
    if left < 0 || (leaks && left > 0 && !armed) {
        bad("leak:values", format!("{} values are left over after the last handle was dropped", left));
    }
    println!("DONE\t{}\t{}\t{}\t{:016x}\t{}", tasks, ops, dead, sig, SEQ.load(Relaxed));
}

pub fn main(seed: u64, runno: u64, leaks: bool, skip: &BTreeSet<usize>, list: bool) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut r = Rng::new(mix(seed) ^ mix(runno.wrapping_mul(0x2545_F491_4F6C_DD1D) + 7));
    match r.u32(8) {
        0..=3 => run::<F44>(&mut r, runno, leaks, skip, list),
        4 => run::<F54>(&mut r, runno, leaks, skip, list),
        5 | 6 => run::<F45>(&mut r, runno, leaks, skip, list),
        _ => run::<F67>(&mut r, runno, leaks, skip, list),
    }
}
