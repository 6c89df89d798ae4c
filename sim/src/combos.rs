//! The instantiations of palmtree that are simulated, and the execution of one scenario.
use crate::alloc;
use crate::elems::*;
use crate::kind::Sim;
use crate::machine::{Gates, Hooks, Machine, Meta, Shared as TaskShared};
use crate::scenario::Scenario;
use crate::sched;
use crate::world::{self, fatal, w};
use palmtree::{PalmTree, Shared, SyncShared, Tree64, TreeConfig, Unique};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;
use typenum::*;

macro_rules! cfg {
    ($n:ident, $k:ident, $b:ident, $l:ident) => {
        pub struct $n;
        impl<K, V> TreeConfig<K, V> for $n {
            type BranchSize = $b;
            type LeafSize = $l;
            type PointerKind = $k;
        }
    };
}
cfg!(U44, Unique, U4, U4);
cfg!(U57, Unique, U5, U7);
cfg!(U65, Unique, U6, U5);
cfg!(U55, Unique, U5, U5);
cfg!(U46, Unique, U4, U6);
cfg!(U464, Unique, U4, U64);
cfg!(U84, Unique, U8, U4);
cfg!(S44, Shared, U4, U4);
cfg!(S76, Shared, U7, U6);
cfg!(S45, Shared, U4, U5);
cfg!(A44, SyncShared, U4, U4);
cfg!(A54, SyncShared, U5, U4);
cfg!(A644, SyncShared, U64, U4);
cfg!(P45, Sim, U4, U5);
cfg!(P64, Sim, U6, U4);
cfg!(P57, Sim, U5, U7);
cfg!(S3319, Shared, U33, U19);

fn no_hooks<K, V, C>() -> Option<Hooks<K, V, C>>
where
    C: TreeConfig<K, V>,
{
    None
}
fn copy_hooks<C>() -> Option<Hooks<CKey, CVal, C>>
where
    C: TreeConfig<CKey, CVal>,
{
    Some(Hooks {
        extend_ref: |t, it| t.extend(it.map(|(k, v)| (k, v))),
        add_ref: |a, b| a + b,
        add_assign_ref: |a, b| *a += b,
        other: |items| Box::new(PalmTree::<CKey, CVal, U57>::load(items.iter().copied())),
        add_other: |a, b| a + b.downcast_ref::<PalmTree<CKey, CVal, U57>>().unwrap(),
        assign_other: |a, b| *a += b.downcast_ref::<PalmTree<CKey, CVal, U57>>().unwrap(),
    })
}

macro_rules! combos {
    ($( $id:literal $name:literal $k:ty, $v:ty, $c:ty, $b:literal $l:literal $shared:literal $hooks:ident; )*) => {
        pub static METAS: &[Meta] = &[
            $( Meta { name: $name, b: $b, l: $l, shared: $shared }, )*
        ];
        fn dispatch(sc: &Scenario, trace: i32) -> Outcome {
            match sc.combo {
                $( $id => run::<$k, $v, $c>(sc, &METAS[$id], || $hooks(), trace), )*
                _ => fatal("harness:combo", "no such configuration"),
            }
        }
    };
}

combos! {
    0 "Unique/4/4" Key, Val, U44, 4 4 false no_hooks;
    1 "Unique/5/7" Key, Val, U57, 5 7 false no_hooks;
    2 "Unique/6/5" Key, Val, U65, 6 5 false no_hooks;
    3 "Unique/Tree64" Key, Val, Tree64<Unique>, 64 64 false no_hooks;
    4 "Shared/4/4" Key, Val, S44, 4 4 true no_hooks;
    5 "Shared/7/6" Key, Val, S76, 7 6 true no_hooks;
    6 "Shared/Tree64" Key, Val, Tree64<Shared>, 64 64 true no_hooks;
    7 "SyncShared/5/4" Key, Val, A54, 5 4 true no_hooks;
    8 "SyncShared/Tree64" Key, Val, Tree64<SyncShared>, 64 64 true no_hooks;
    9 "SyncShared/4/4" Key, Val, A44, 4 4 true no_hooks;
    10 "SyncShared/64/4" Key, Val, A644, 64 4 true no_hooks;
    11 "SimPtr/4/5" Key, Val, P45, 4 5 true no_hooks;
    12 "SimPtr/6/4" Key, Val, P64, 6 4 true no_hooks;
    13 "Shared/4/5 over-aligned keys" BigKey, Val, S45, 4 5 true no_hooks;
    14 "Unique/5/5 zero-sized values" Key, Zst, U55, 5 5 false no_hooks;
    15 "Unique/4/6 Copy" CKey, CVal, U46, 4 6 false copy_hooks;
    16 "Unique/Tree64 Copy" CKey, CVal, Tree64<Unique>, 64 64 false copy_hooks;
    17 "Unique/4/64" Key, Val, U464, 4 64 false no_hooks;
    18 "Unique/8/4" Key, Val, U84, 8 4 false no_hooks;
    19 "Shared/4/4 Copy" CKey, CVal, S44, 4 4 true copy_hooks;
    20 "SyncShared/4/4 over-aligned keys" BigKey, Val, A44, 4 4 true no_hooks;
    21 "SimPtr/5/7" Key, Val, P57, 5 7 true no_hooks;
    22 "Shared/33/19" Key, Val, S3319, 33 19 true no_hooks;
    23 "Shared/4/4 over-aligned values" Key, BigVal, S44, 4 4 true no_hooks;
}

#[derive(Default, Clone, Copy)]
pub struct Outcome {
    pub hist: u64,
    pub ops: u64,
    pub yields: u64,
    pub switches: u64,
    pub sched_sig: u64,
}

pub fn exec(sc: &Scenario, trace: i32) -> Outcome {
    world::reset(sc.run, sc.lie_seed);
    match catch_unwind(AssertUnwindSafe(|| dispatch(sc, trace))) {
        Ok(o) => o,
        Err(_) => fatal("panic:uncaught", &world::panic_msg().clone()),
    }
}

/// Whether a type is Send and Sync, found out when the simulator is built.
struct Is<T>(std::marker::PhantomData<T>);
trait IsNot {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T> IsNot for Is<T> {}
struct Is2<T>(std::marker::PhantomData<T>);
impl<T> IsNot for Is2<T> {}
impl<T: Send> Is<T> {
    const SEND: bool = true;
}
impl<T: Sync> Is2<T> {
    const SYNC: bool = true;
}
/// The tasks below hand trees to each other whatever the types say.
fn must_be_send() {
    type T = palmtree::SyncPalmTree<u32, u64>;
    type U = PalmTree<u32, String, A44>;
    if !(Is::<T>::SEND && Is2::<T>::SYNC && Is::<U>::SEND && Is2::<U>::SYNC) {
        fatal("threads:not-send", "a tree of thread-safe entries with SyncShared nodes cannot be sent to or shared with another thread");
    }
}

struct Wrap<T>(T);
unsafe impl<T> Send for Wrap<T> {}
impl<T> Wrap<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

fn run<K, V, C>(
    sc: &Scenario,
    meta: &'static Meta,
    hooks: impl Fn() -> Option<Hooks<K, V, C>>,
    trace: i32,
) -> Outcome
where
    K: SimKey,
    V: SimVal,
    C: TreeConfig<K, V> + 'static,
{
    let before = alloc::LIVE.load(Relaxed);
    let mut out = Outcome::default();
    let mut dirty = false;
    let gates = Gates { budgets: sc.budgets, copies: sc.prop == "C15", space: sc.prop == "C16", aborts: matches!(&*sc.prop, "C01" | "C05"), ends: sc.prop == "C10", bounds: sc.prop == "C02" };
    if sc.tasks <= 1 {
        let mut m: Machine<K, V, C> =
            Machine::new(meta, hooks(), std::ptr::null_mut(), gates, 0);
        for (i, op) in sc.ops.iter().enumerate() {
            m.run_op(i as u32, op);
            out.ops += 1;
        }
        m.finish(sc.ops.len() as u32, true);
        dirty |= m.dirty;
        drop(m);
    } else {
        must_be_send();
        let n = sc.tasks as usize;
        let mut shared: Box<TaskShared<K, V, C>> = Box::new(TaskShared::new(n));
        let sp: *mut TaskShared<K, V, C> = &mut *shared;
        sched::begin(sc.plan.clone(), n, trace);
        let results: Vec<(u64, bool)> = std::thread::scope(|scope| {
            let mut hs = Vec::new();
            for t in 0..n {
                let arg = Wrap((sp, sc, meta, hooks()));
                let h = std::thread::Builder::new()
                    .stack_size(4 << 20)
                    .spawn_scoped(scope, move || {
                        let arg = arg;
                        let (sp, sc, meta, _) = arg.get();
                        let (sp, sc, meta) = (*sp, *sc, *meta);
                        sched::task_start(t);
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            let mut m: Machine<K, V, C> =
                                Machine::new(meta, None, sp, gates, t);
                            let mut n = 0;
                            let mut alive = true;
                            for (i, op) in sc.ops.iter().enumerate() {
                                if op.task as usize != t {
                                    continue;
                                }
                                n += 1;
                                alive = m.run_op(i as u32, op);
                                if !alive {
                                    break;
                                }
                            }
                            m.finish(sc.ops.len() as u32, alive);
                            (n, m.dirty)
                        }));
                        match r {
                            Ok(r) => {
                                sched::task_end();
                                r
                            }
                            Err(_) => fatal("panic:uncaught", &world::panic_msg().clone()),
                        }
                    });
                match h {
                    Ok(h) => hs.push(h),
                    Err(_) => fatal("harness:thread", "cannot start a thread"),
                }
            }
            sched::run_all();
            hs.into_iter().map(|h| h.join().unwrap_or((0, true))).collect()
        });
        let (y, s, sig) = sched::end();
        out.yields = y;
        out.switches = s;
        out.sched_sig = sig;
        for (n, d) in results {
            out.ops += n;
            dirty |= d;
        }
        drop(shared);
    }
    out.hist = w().hist;
    if !dirty {
        let live = w().live;
        if live != 0 {
            fatal(
                "leak:objects",
                &format!("{} keys and values were never dropped although every handle is gone", live),
            );
        }
        let now = alloc::LIVE.load(Relaxed);
        if sc.tasks <= 1 && now != before {
            fatal("leak:blocks", &format!("{} memory blocks were never freed although every handle is gone", now - before));
        }
    }
    out
}
