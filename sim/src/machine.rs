//! One simulated client of the library: four tree handles, the reference model of each
//! (a `BTreeMap` from key rank to value payload), and whatever cursors it has open.
//! Every public operation of palmtree is an op here; each op is run against the real tree
//! and against the model, and every handle is compared with its model after every op.
use crate::alloc;
use crate::elems::{odd_trees, SimKey, SimVal};
use crate::rng::{mix, Rng};
use crate::scenario::{Code, Op};
use crate::sched;
use crate::world::{self, ctx, fatal, probe, tick, w, SimPanic, FK, P};
use palmtree::{Entry, MergeIter, OwnedIter, PalmTree, PointerKind, TreeConfig};
use std::any::Any;
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::hash::{Hash, Hasher};
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;

pub const NS: usize = 4;
/// One more handle, used only while an op works on the cell that tasks share.
const SCR: usize = NS;
const ALLS: usize = NS + 1;
const NOWN: usize = 2;

pub type Tree<K, V, C> = PalmTree<K, V, C>;
type Model = BTreeMap<u32, u64>;

pub struct Meta {
    pub name: &'static str,
    pub b: usize,
    pub l: usize,
    /// clones share nodes
    pub shared: bool,
}

/// The parts of the API that exist only for Copy keys and values.
pub struct Hooks<K: 'static, V: 'static, C>
where
    C: TreeConfig<K, V>,
{
    pub extend_ref: fn(&mut Tree<K, V, C>, &mut dyn Iterator<Item = &'static (K, V)>),
    pub add_ref: fn(Tree<K, V, C>, &Tree<K, V, C>) -> Tree<K, V, C>,
    pub add_assign_ref: fn(&mut Tree<K, V, C>, &Tree<K, V, C>),
    /// a tree of another configuration
    pub other: fn(&[(K, V)]) -> Box<dyn Any>,
    pub add_other: fn(Tree<K, V, C>, &dyn Any) -> Tree<K, V, C>,
    pub assign_other: fn(&mut Tree<K, V, C>, &dyn Any),
}

/// Which of the costlier guarantees this run holds the tree to.
#[derive(Clone, Copy, Default)]
pub struct Gates {
    pub budgets: bool,
    pub copies: bool,
    pub space: bool,
    /// whether what an aborted operation leaves in a handle is judged
    pub aborts: bool,
    /// whether operations have to end even on a handle that an abort left with a wrong length
    pub ends: bool,
    /// whether a range with its bounds the wrong way round has to panic
    pub bounds: bool,
}

enum Cur<K, V, C>
where
    K: SimKey,
    V: SimVal,
    C: TreeConfig<K, V> + 'static,
{
    None,
    It(palmtree::Iter<'static, K, V, C>, VecDeque<(u32, u64)>, bool),
    Mu {
        it: Option<palmtree::IterMut<'static, K, V, C>>,
        exp: VecDeque<(u32, u64)>,
        held: Vec<(u32, &'static mut V, u64)>,
        seen: HashSet<usize>,
        wild: bool,
    },
    Vac(palmtree::Entry<'static, K, V, C>, u32),
    Occ(palmtree::Entry<'static, K, V, C>, u32),
}

struct Own<K, V, C>
where
    K: SimKey,
    V: SimVal,
    C: TreeConfig<K, V> + 'static,
{
    it: OwnedIter<K, V, C>,
    exp: VecDeque<(u32, u64)>,
    wild: bool,
    ends: u8,
    fam: u64,
    /// how many nodes this may hold on to
    nodes: u64,
}

struct Slot<K, V, C>
where
    K: SimKey,
    V: SimVal,
    C: TreeConfig<K, V> + 'static,
{
    tree: *mut Tree<K, V, C>,
    model: Model,
    ever: u64,
    fam: u64,
    wild: bool,
    emptied: bool,
    cur: Cur<K, V, C>,
}

/// What an aborted operation may leave behind.
enum Pend {
    /// nothing at all may have changed
    Same,
    /// this key may have its old or its new state
    One(usize, u32, Option<u64>),
    /// these items, up to where the stream was
    Stream(usize, Vec<(u32, u64)>, Rc<Cell<usize>>),
    /// any subset of what is in the handle's model and this one
    Bulk(usize, Model),
}

enum Ab {
    Sim(FK),
    Other(String),
}
type Res<R> = Result<R, Ab>;

/// What tasks share.
pub struct Shared<K, V, C>
where
    K: SimKey,
    V: SimVal,
    C: TreeConfig<K, V> + 'static,
{
    locked: bool,
    cell: Option<Msg<K, V, C>>,
    boxes: Vec<VecDeque<Msg<K, V, C>>>,
    ro: Option<(Arc<Tree<K, V, C>>, Arc<Model>)>,
}
struct Msg<K, V, C>
where
    K: SimKey,
    V: SimVal,
    C: TreeConfig<K, V> + 'static,
{
    tree: Tree<K, V, C>,
    model: Model,
    ever: u64,
    fam: u64,
    wild: bool,
}
impl<K, V, C> Shared<K, V, C>
where
    K: SimKey,
    V: SimVal,
    C: TreeConfig<K, V> + 'static,
{
    pub fn new(tasks: usize) -> Self {
        Shared {
            locked: false,
            cell: None,
            boxes: (0..tasks).map(|_| VecDeque::new()).collect(),
            ro: None,
        }
    }
}

pub struct Machine<K, V, C>
where
    K: SimKey,
    V: SimVal,
    C: TreeConfig<K, V> + 'static,
{
    meta: &'static Meta,
    hooks: Option<Hooks<K, V, C>>,
    slots: Vec<Slot<K, V, C>>,
    own: Vec<Option<Own<K, V, C>>>,
    ro: Option<(Arc<Tree<K, V, C>>, Arc<Model>)>,
    shared: *mut Shared<K, V, C>,
    gates: Gates,
    me: usize,
    step: u32,
    next_p: u64,
    next_fam: u64,
    touched: [bool; ALLS],
    /// the tree in this handle is being changed in place
    mutd: [bool; ALLS],
    pend: Pend,
    last_cmps: u64,
    last_visits: u64,
    last_made: u64,
    /// no leak check: something panicked or was leaked on purpose
    pub dirty: bool,
    after_abort: bool,
    /// the op uses a cursor or a consuming iterator over an unordered tree
    on_wild: bool,
    /// value copies this op made, and may make
    copied: u64,
    may_copy: u64,
    /// handles whose copying the op was allowed: (handle, entries, family)
    granted: Vec<(usize, u64, u64)>,
    /// nodes that an aborted operation may have lost
    slack: i64,
    /// something was leaked on purpose
    lost: bool,
}

struct Stream<K, V> {
    items: Vec<(u32, u64)>,
    pos: Rc<Cell<usize>>,
    hint: u32,
    _p: std::marker::PhantomData<(K, V)>,
}
impl<K: SimKey, V: SimVal> Iterator for Stream<K, V> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> {
        tick(FK::Src);
        let i = self.pos.get();
        let (k, p) = *self.items.get(i)?;
        self.pos.set(i + 1);
        Some((K::mk(k), V::mk(p)))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len() - self.pos.get();
        match self.hint % 5 {
            0 => (0, None),
            1 => (n, Some(n)),
            2 => (n / 2, Some(n * 2 + 7)),
            3 => (0, Some(usize::MAX)),
            // wrong, as an iterator that ends early would be
            _ => (n + 5, Some(n + 5)),
        }
    }
}

fn bounds(kl: u32, lo: u32, kh: u32, hi: u32) -> (Bound<u32>, Bound<u32>) {
    let f = |k: u32, x: u32| match k % 3 {
        0 => Bound::Included(x),
        1 => Bound::Excluded(x),
        _ => Bound::Unbounded,
    };
    (f(kl, lo), f(kh, hi))
}
/// No tree can hold more entries than there are keys alive.
fn live_cap<K: SimKey>() -> u64 {
    if K::TRACKED {
        w().live.max(0) as u64
    } else {
        1 << 22
    }
}
fn kb<K: SimKey>(b: Bound<u32>) -> Bound<K> {
    match b {
        Bound::Included(x) => Bound::Included(K::mk(x)),
        Bound::Excluded(x) => Bound::Excluded(K::mk(x)),
        Bound::Unbounded => Bound::Unbounded,
    }
}
/// The bounds are the wrong way round, or exclude one key at both ends: a panic.
fn inverted(b: (Bound<u32>, Bound<u32>)) -> bool {
    use Bound::*;
    match b {
        (Excluded(a), Excluded(b)) => a >= b,
        (Included(a), Included(b)) | (Included(a), Excluded(b)) | (Excluded(a), Included(b)) => a > b,
        _ => false,
    }
}
fn within(b: (Bound<u32>, Bound<u32>), k: u32) -> bool {
    (match b.0 {
        Bound::Included(x) => k >= x,
        Bound::Excluded(x) => k > x,
        Bound::Unbounded => true,
    }) && (match b.1 {
        Bound::Included(x) => k <= x,
        Bound::Excluded(x) => k < x,
        Bound::Unbounded => true,
    })
}
fn model_range(m: &Model, b: (Bound<u32>, Bound<u32>)) -> VecDeque<(u32, u64)> {
    let lo = match b.0 {
        Bound::Included(x) => x,
        Bound::Excluded(x) => match x.checked_add(1) {
            Some(x) => x,
            None => return VecDeque::new(),
        },
        Bound::Unbounded => 0,
    };
    m.range(lo..).take_while(|(k, _)| within(b, **k)).map(|(k, v)| (*k, *v)).collect()
}

impl<K, V, C> Machine<K, V, C>
where
    K: SimKey,
    V: SimVal,
    C: TreeConfig<K, V> + 'static,
{
    pub fn new(
        meta: &'static Meta,
        hooks: Option<Hooks<K, V, C>>,
        shared: *mut Shared<K, V, C>,
        gates: Gates,
        me: usize,
    ) -> Self {
        Machine {
            meta,
            hooks,
            slots: (0..ALLS)
                .map(|i| Slot {
                    tree: Box::into_raw(Box::new(PalmTree::new())),
                    model: Model::new(),
                    ever: 0,
                    fam: (me as u64) << 32 | i as u64,
                    wild: false,
                    emptied: false,
                    cur: Cur::None,
                })
                .collect(),
            own: (0..NOWN).map(|_| None).collect(),
            ro: None,
            shared,
            gates,
            me,
            step: 0,
            next_p: (me as u64 + 1) << 40,
            next_fam: (me as u64) << 32 | 1000,
            touched: [false; ALLS],
            mutd: [false; ALLS],
            pend: Pend::Same,
            last_cmps: 0,
            last_visits: 0,
            last_made: 0,
            dirty: false,
            after_abort: false,
            on_wild: false,
            copied: 0,
            may_copy: 0,
            granted: Vec::new(),
            slack: 0,
            lost: false,
        }
    }

    // ---- plumbing ----

    fn t(&self, s: usize) -> &'static Tree<K, V, C> {
        unsafe { &*self.slots[s].tree }
    }
    fn tm(&mut self, s: usize) -> &'static mut Tree<K, V, C> {
        unsafe { &mut *self.slots[s].tree }
    }
    fn pay(&mut self) -> u64 {
        self.next_p += 1;
        if V::PAYLOAD {
            self.next_p
        } else {
            0
        }
    }
    fn fam(&mut self) -> u64 {
        self.next_fam += 1;
        self.next_fam
    }
    fn h(&self, x: u64) {
        let w = w();
        w.hist = mix(w.hist ^ x);
    }
    fn lied(&self) -> bool {
        ctx().fired == FK::Lie
    }
    /// results on this handle can be held against the model
    fn ok(&self, s: usize) -> bool {
        !self.slots[s].wild && !self.lied()
    }

    /// Run library code with the op's fault armed.
    fn call<R>(&mut self, f: impl FnOnce() -> R) -> Res<R> {
        let (c0, v0, n0, m0) = (ctx().cmps, ctx().vclones, ctx().visits, ctx().made);
        ctx().gate = true;
        let r = catch_unwind(AssertUnwindSafe(f));
        let c = ctx();
        c.gate = false;
        self.last_cmps = c.cmps - c0;
        self.last_visits = c.visits - n0;
        self.last_made = c.made - m0;
        self.copied += c.vclones - v0;
        w().progress += 1;
        r.map_err(|p| {
            self.dirty = true;
            if p.is::<SimPanic>() {
                Ab::Sim(ctx().fired)
            } else {
                Ab::Other(world::panic_msg().clone())
            }
        })
    }
    /// Run library code without faults, as part of a check.
    fn quiet<R>(&mut self, s: usize, what: &str, f: impl FnOnce() -> R) -> Option<R> {
        debug_assert!(!ctx().gate);
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => Some(r),
            Err(_) => {
                if self.slots[s].wild {
                    self.dirty = true;
                    probe(P::WildPanic);
                    return None;
                }
                fatal("panic:check", &format!("handle {}: {} panicked: {}", s, what, world::panic_msg()))
            }
        }
    }

    fn levels(&self, s: usize) -> u64 {
        let base = (self.meta.b / 2).max(2) as f64;
        3 + ((self.slots[s].ever + 2) as f64).log(base).ceil() as u64
    }
    fn point_budget(&self, s: usize) -> u64 {
        let lv = self.levels(s);
        let m = self.meta.b.max(self.meta.l) as u64;
        lv * (2 * m + 8) * 2 + lv * lv * 8
    }
    fn budget(&self, s: usize, allowed: u64, what: &str) {
        if self.gates.budgets && self.ok(s) && self.last_cmps > allowed {
            fatal(
                "steps:comparisons",
                &format!(
                    "{} made {} key comparisons; {} entries were ever inserted, {} are stored, at most {} allowed",
                    what, self.last_cmps, self.slots[s].ever, self.slots[s].model.len(), allowed
                ),
            );
        }
        // and nodes: those just made (copies, splits) have been written and may be looked at again
        let allowed = allowed + 8 * self.last_made;
        if self.gates.budgets && self.ok(s) && self.last_visits > allowed {
            fatal(
                "steps:nodes",
                &format!(
                    "{} looked at nodes {} times; {} entries were ever inserted, {} are stored, at most {} allowed",
                    what, self.last_visits, self.slots[s].ever, self.slots[s].model.len(), allowed
                ),
            );
        }
    }

    /// The op is about to use the tree mutably: nothing may be open on it.
    fn excl(&mut self, s: usize) {
        self.close(s);
        self.touched[s] = true;
        self.mutd[s] = true;
        self.grant(s);
        if self.meta.shared {
            let f = self.slots[s].fam;
            for o in 0..NS {
                if o != s && self.slots[o].fam == f && !self.slots[o].model.is_empty() {
                    probe(P::MutateWhileShared);
                    if !matches!(self.slots[o].cur, Cur::None) {
                        probe(P::CursorWhileOtherMutated);
                    }
                }
            }
        }
    }
    /// Someone else may hold the same nodes.
    fn is_shared(&self, s: usize) -> bool {
        let f = self.slots[s].fam;
        self.meta.shared
            && ((0..ALLS).any(|o| o != s && self.slots[o].fam == f) || self.own.iter().flatten().any(|o| o.fam == f))
    }
    /// The op changes this tree, so it may copy what is shared, once.
    fn grant(&mut self, s: usize) {
        if self.gates.copies && !self.granted.iter().any(|g| g.0 == s) && self.is_shared(s) {
            let n = self.slots[s].model.len() as u64;
            self.may_copy = self.may_copy.saturating_add(n);
            self.granted.push((s, n, self.slots[s].fam));
        }
    }
    /// What these two families share from now on is anyone's guess.
    fn join(&mut self, f1: u64, f2: u64) -> u64 {
        let f = self.fam();
        for x in self.slots.iter_mut() {
            if x.fam == f1 || x.fam == f2 {
                x.fam = f;
            }
        }
        for x in self.own.iter_mut().flatten() {
            if x.fam == f1 || x.fam == f2 {
                x.fam = f;
            }
        }
        f
    }
    /// After an op: did it copy more than it had to?
    fn check_copies(&mut self, ok: bool, wild: bool) {
        if !self.gates.copies || wild {
            return;
        }
        if self.copied > self.may_copy {
            fatal(
                "copies:values",
                &format!(
                    "{}: the operation copied {} values, of which {} were shared with another handle",
                    self.meta.name, self.copied, self.may_copy
                ),
            );
        }
        if let ([(s, n, f)], true) = (&self.granted[..], ok) {
            if *n > 0 && self.copied >= *n && self.slots[*s].fam == *f {
                // whatever was shared has been copied, and is this handle's own now
                let s = *s;
                self.slots[s].fam = self.fam();
                probe(P::Unshared);
            }
        }
    }
    /// The most nodes a tree of n entries may hold on to.
    fn node_cap(&self, n: u64, ever: u64) -> u64 {
        let base = (self.meta.b / 2).max(2) as f64;
        1 + n * (3 + ((ever + 2) as f64).log(base).ceil() as u64)
    }
    fn check_nodes(&mut self, aborted: bool) {
        if !self.gates.space || !self.shared.is_null() {
            return;
        }
        let wild = self.slots.iter().any(|s| s.wild) || self.own.iter().flatten().any(|o| o.wild);
        let cap: u64 = self.slots.iter().map(|s| self.node_cap(s.model.len() as u64, s.ever)).sum::<u64>()
            + self.own.iter().flatten().map(|o| o.nodes).sum::<u64>();
        let over = w().nodes - cap as i64;
        if aborted || wild || self.lost {
            // any node alive now may stay for good
            self.slack = self.slack.max(w().nodes);
            self.lost = false;
        } else if over > self.slack {
            let n: usize = self.slots.iter().map(|s| s.model.len()).sum();
            fatal(
                "space:nodes",
                &format!("{}: {} nodes are alive, but all handles together hold {} entries", self.meta.name, w().nodes, n),
            );
        }
    }
    /// `blocks` nodes were all that a tree of n entries consisted of.
    fn check_blocks(&self, what: &str, blocks: i64, n: u64, ever: u64, wild: bool) {
        if self.gates.space && !wild && !self.lied() && self.shared.is_null() && blocks > self.node_cap(n, ever) as i64 {
            fatal(
                "space:blocks",
                &format!("{}: {} a tree of {} entries moved {} memory blocks", self.meta.name, what, n, blocks),
            );
        }
    }

    /// The op reads the tree: nothing mutable may be open on it.
    fn shr(&mut self, s: usize) {
        if !matches!(self.slots[s].cur, Cur::It(..) | Cur::None) {
            self.close(s);
        }
    }
    fn close(&mut self, s: usize) {
        self.slots[s].cur = Cur::None;
    }
    fn is_mut_open(&self, s: usize) -> bool {
        !matches!(self.slots[s].cur, Cur::None | Cur::It(..))
    }

    /// Replace a handle, dropping the old tree.
    fn put(&mut self, s: usize, t: Tree<K, V, C>, model: Model, ever: u64, fam: u64, wild: bool) {
        self.close(s);
        let old = std::mem::replace(self.tm(s), t);
        let was_wild = self.slots[s].wild;
        let sl = &mut self.slots[s];
        sl.model = model;
        sl.ever = ever;
        sl.fam = fam;
        sl.wild = wild;
        sl.emptied = false;
        self.touched[s] = true;
        self.mutd[s] = false;
        match catch_unwind(AssertUnwindSafe(move || drop(old))) {
            Ok(()) => {}
            Err(_) if was_wild => probe(P::WildPanic),
            Err(_) => fatal("panic:drop", &format!("dropping a tree panicked: {}", world::panic_msg())),
        }
    }
    /// Move the tree out of a handle, leaving an empty one.
    fn take(&mut self, s: usize) -> (Tree<K, V, C>, Model, u64, bool) {
        self.excl(s);
        self.mutd[s] = false;
        let t = std::mem::replace(self.tm(s), PalmTree::new());
        let fam = self.fam();
        let sl = &mut self.slots[s];
        sl.fam = fam;
        sl.emptied = false;
        let wild = std::mem::replace(&mut sl.wild, false);
        (t, std::mem::take(&mut sl.model), std::mem::replace(&mut sl.ever, 0), wild)
    }

    fn bad(&self, class: &str, s: usize, msg: &str) -> ! {
        fatal(class, &format!("{} handle {}: {}", self.meta.name, s, msg))
    }
    fn note(&mut self, s: usize) {
        let n = self.slots[s].model.len();
        let w = w();
        w.maxlen = w.maxlen.max(n);
        // every level multiplies by at most the branch size
        if n > self.meta.l * self.meta.b.pow(2) {
            probe(P::Deep);
        }
        let sl = &mut self.slots[s];
        if n == 0 {
            if sl.ever > 0 {
                sl.emptied = true;
            }
        } else if sl.emptied {
            sl.emptied = false;
            probe(P::EmptiedRefilled);
        }
    }

    // ---- checks ----

    fn entries(&mut self, s: usize, back: bool) -> Option<Vec<(u32, u64)>> {
        let t = self.t(s);
        let cap = live_cap::<K>() as usize + self.slots[s].model.len() + 64;
        self.quiet(s, "iteration", move || {
            let mut out = Vec::new();
            let mut it = t.iter();
            loop {
                let e = if back { it.next_back() } else { it.next() };
                match e {
                    Some((k, v)) => out.push((k.rank(), v.get())),
                    None => break,
                }
                if out.len() > cap {
                    fatal("hang:iter", "an iterator yields more entries than exist");
                }
            }
            if it.next().is_some() || it.next_back().is_some() {
                fatal("model:fused", "an exhausted iterator yielded again");
            }
            out
        })
    }

    fn diff(got: &[(u32, u64)], model: &Model) -> String {
        let want: Vec<(u32, u64)> = model.iter().map(|(k, v)| (*k, *v)).collect();
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        format!(
            "{} entries, expected {}; first difference at index {}: got {:?}, expected {:?}",
            got.len(),
            want.len(),
            i,
            got.get(i),
            want.get(i)
        )
    }

    /// Compare a handle with its model.
    fn check(&mut self, s: usize, deep: bool) {
        if self.is_mut_open(s) {
            return;
        }
        let t = self.t(s);
        if self.slots[s].wild {
            if deep || self.step % 4 == 0 {
                self.entries(s, false);
                self.entries(s, true);
            }
            return;
        }
        let n = self.slots[s].model.len();
        if t.len() != n {
            self.bad("model:len", s, &format!("len() is {}, expected {}", t.len(), n));
        }
        if t.is_empty() != (n == 0) {
            self.bad("model:len", s, "is_empty() is wrong");
        }
        if deep {
            let got = self.entries(s, false).unwrap();
            self.last_cmps = 0;
            if got.len() != n || !got.iter().zip(&self.slots[s].model).all(|(a, b)| a.0 == *b.0 && a.1 == *b.1) {
                self.bad("model:iter", s, &Self::diff(&got, &self.slots[s].model));
            }
            let mut got = self.entries(s, true).unwrap();
            got.reverse();
            if got.len() != n || !got.iter().zip(&self.slots[s].model).all(|(a, b)| a.0 == *b.0 && a.1 == *b.1) {
                self.bad("model:iter-back", s, &Self::diff(&got, &self.slots[s].model));
            }
            let mut keys: Vec<u32> = Vec::new();
            if cfg!(miri) {
                keys.extend(self.slots[s].model.keys().skip(self.step as usize % 5).step_by(7));
            } else if n <= 48 {
                for k in self.slots[s].model.keys() {
                    keys.push(*k);
                    keys.push(k + 1);
                }
                keys.push(0);
            } else {
                let mut r = Rng::new(self.step as u64 * 31 + s as u64);
                for _ in 0..16 {
                    let i = r.below(n as u64) as usize;
                    keys.push(got[i].0);
                    keys.push(got[i].0 + 1);
                    keys.push(got[i].0.saturating_sub(1));
                }
                keys.extend([0, got[0].0, got[n - 1].0, got[n - 1].0 + 1]);
            }
            for k in keys {
                self.check_get(s, k);
            }
            let h = {
                let mut h = 0x9e37u64 ^ self.meta.name.len() as u64 ^ (self.meta.b as u64) << 8 ^ (self.meta.l as u64) << 16;
                for (k, _) in &self.slots[s].model {
                    h = mix(h ^ *k as u64);
                }
                mix(h ^ self.slots[s].ever)
            };
            let st = &mut w().states;
            if st.len() < 1 << 22 {
                st.insert(h);
            }
        }
    }
    fn check_get(&mut self, s: usize, k: u32) {
        let t = self.t(s);
        let want = self.slots[s].model.get(&k).copied();
        let key = K::mk(k);
        let got = self.quiet(s, "get", || t.get(&key).map(|v| v.get())).unwrap();
        if got != want {
            self.bad("model:get", s, &format!("get({}) is {:?}, expected {:?}", k, got, want));
        }
        let got = self.quiet(s, "get_linear", || t.get_linear(&key).map(|v| v.get())).unwrap();
        if got != want {
            self.bad("model:get", s, &format!("get_linear({}) is {:?}, expected {:?}", k, got, want));
        }
    }
    fn check_all(&mut self, deep: bool) {
        for s in 0..NS {
            let n = self.slots[s].model.len() as u64;
            let d = deep
                || n <= 40 && (!cfg!(miri) || self.touched[s] && self.step % 4 == 0)
                || mix((self.step as u64) << 8 | s as u64) % (n / if self.touched[s] { 24 } else { 12 } + 1) == 0;
            self.check(s, d);
        }
    }

    /// Does a handle agree with itself? Only for campaigns which do not judge
    /// what an abort leaves behind: they go on with the handle if it does.
    fn sane(&mut self, s: usize) -> bool {
        let t = self.t(s);
        let cap = live_cap::<K>() as usize + self.slots[s].model.len() + 64;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let fore: Vec<(u32, u64)> = t.iter().take(cap + 1).map(|(k, v)| (k.rank(), v.get())).collect();
            let mut back: Vec<(u32, u64)> = t.iter().rev().take(cap + 1).map(|(k, v)| (k.rank(), v.get())).collect();
            back.reverse();
            fore.len() <= cap
                && fore == back
                && t.len() == fore.len()
                && t.is_empty() == fore.is_empty()
                && fore.windows(2).all(|p| p[0].0 < p[1].0)
                && fore.iter().all(|(k, p)| {
                    let key = K::mk(*k);
                    t.get(&key).map(|v| v.get()) == Some(*p)
                })
        }));
        r.unwrap_or(false)
    }
    /// Stop judging the contents of a handle.
    fn spoil(&mut self, s: usize) {
        self.dirty = true;
        self.slots[s].wild = true;
        self.retire(s);
    }
    /// Walk over a handle which is no longer judged, both ways, and put it away if its length
    /// is wrong: from there on, an owning iterator may look for entries that do not exist.
    fn retire(&mut self, s: usize) {
        if self.gates.ends {
            return;
        }
        self.close(s);
        let t = self.t(s);
        let cap = live_cap::<K>() as usize + self.slots[s].model.len() + 64;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let fore = t.iter().take(cap + 1).map(|(k, v)| (k.rank(), v.get())).count();
            let back = t.iter().rev().take(cap + 1).map(|(k, v)| (k.rank(), v.get())).count();
            fore == t.len() && back == t.len()
        }));
        if matches!(r, Ok(true)) {
            return;
        }
        probe(P::Retired);
        let t = std::mem::replace(self.tm(s), PalmTree::new());
        let _ = catch_unwind(AssertUnwindSafe(move || drop(t)));
        let fam = self.fam();
        let sl = &mut self.slots[s];
        sl.model.clear();
        sl.ever = 0;
        sl.fam = fam;
        sl.emptied = false;
        sl.wild = false;
    }

    /// After an abort: take over what the tree now holds, if it is allowed.
    fn adopt(&mut self, s: usize, allow: &dyn Fn(u32, u64) -> bool) -> bool {
        self.close(s);
        if !self.gates.aborts && !self.sane(s) {
            self.spoil(s);
            return true;
        }
        let got = match self.entries(s, false) {
            Some(g) => g,
            None => return true,
        };
        if got.windows(2).any(|p| p[0].0 >= p[1].0) {
            self.bad("abort:order", s, "keys are out of order or repeated after an aborted operation");
        }
        if let Some(e) = got.iter().find(|(k, v)| !allow(*k, *v)) {
            let e = *e;
            if !self.gates.aborts {
                self.spoil(s);
                return true;
            }
            self.bad("abort:invented", s, &format!("entry {:?} cannot be there after an aborted operation", e));
        }
        let m: Model = got.into_iter().collect();
        let same = m == self.slots[s].model;
        self.slots[s].model = m;
        same
    }

    fn on_abort(&mut self, ab: Ab) {
        let lied = self.lied();
        let any_wild = self.on_wild || (0..ALLS).any(|s| self.touched[s] && self.slots[s].wild);
        let mut wild = lied;
        match &ab {
            Ab::Other(m) => {
                if !lied && !any_wild {
                    fatal("panic:unexpected", m);
                }
                probe(P::WildPanic);
                wild = true;
            }
            Ab::Sim(FK::DropK) | Ab::Sim(FK::DropV) => {
                probe(P::DropPanic);
                wild = true;
            }
            Ab::Sim(_) => {}
        }
        self.h(0xab);
        self.after_abort = true;
        let pend = std::mem::replace(&mut self.pend, Pend::Same);
        if wild {
            for s in 0..ALLS {
                if self.mutd[s] {
                    self.slots[s].wild = true;
                    self.close(s);
                    if !lied {
                        self.dirty = true;
                        self.retire(s);
                    }
                }
            }
            return;
        }
        let src = matches!(ab, Ab::Sim(FK::Src));
        match pend {
            Pend::Same => {
                probe(P::AbortOther);
            }
            Pend::One(s, k, new) => {
                if !self.slots[s].wild {
                    let old = self.slots[s].model.clone();
                    let mut next = old.clone();
                    match new {
                        Some(p) => next.insert(k, p),
                        None => next.remove(&k),
                    };
                    self.adopt(s, &|_, _| true);
                    let got = &self.slots[s].model;
                    if self.slots[s].wild {
                    } else if *got == old {
                        probe(P::AbortBefore);
                    } else if *got == next {
                        probe(P::AbortAfter);
                        self.slots[s].ever += 1;
                    } else if !self.gates.aborts {
                        self.spoil(s);
                    } else {
                        let got: Vec<_> = got.iter().map(|(k, v)| (*k, *v)).collect();
                        self.bad(
                            "abort:atomic",
                            s,
                            &format!("an aborted operation on key {} left {}", k, Self::diff(&got, &old)),
                        );
                    }
                }
            }
            Pend::Stream(s, items, pos) => {
                if !self.slots[s].wild {
                    let n = pos.get();
                    let mut cand = self.slots[s].model.clone();
                    let adds = n as u64;
                    let mut prev = cand.clone();
                    for (i, (k, p)) in items[..n].iter().enumerate() {
                        if i + 1 == n {
                            prev = cand.clone();
                        }
                        cand.insert(*k, *p);
                    }
                    self.adopt(s, &|_, _| true);
                    let got = &self.slots[s].model;
                    if self.slots[s].wild {
                    } else if *got == cand || (*got == prev && !src) {
                        probe(P::AbortStream);
                        self.slots[s].ever += adds;
                    } else if !self.gates.aborts {
                        self.spoil(s);
                    } else {
                        let got: Vec<_> = got.iter().map(|(k, v)| (*k, *v)).collect();
                        self.bad(
                            "abort:stream",
                            s,
                            &format!("a stream aborted after {} items left {}", n, Self::diff(&got, &cand)),
                        );
                    }
                }
            }
            Pend::Bulk(s, other) => {
                if !self.slots[s].wild {
                    let mine = self.slots[s].model.clone();
                    self.adopt(s, &|k, v| mine.get(&k) == Some(&v) || other.get(&k) == Some(&v));
                    self.slots[s].ever += other.len() as u64;
                    probe(P::AbortBulk);
                }
            }
        }
    }

    // ---- running ----

    /// Run one op. False: the task is dead.
    pub fn run_op(&mut self, step: u32, op: &Op) -> bool {
        self.step = step;
        let w_ = w();
        w_.step_info = (step, self.me as u32);
        w_.progress += 1;
        self.touched = [false; ALLS];
        self.mutd = [false; ALLS];
        self.pend = Pend::Same;
        self.on_wild = false;
        self.copied = 0;
        self.may_copy = 0;
        self.granted.clear();
        {
            let c = ctx();
            c.gate = false;
            c.fired = FK::None;
            c.armed = FK::None;
            if let Some((k, n)) = op.fault {
                c.armed = k;
                c.left = n;
                c.lie_mode = n;
            }
        }
        if self.after_abort && op.fault.is_none() {
            self.after_abort = false;
            probe(P::Retry);
        }
        self.h((op.code as u64) << 40 ^ (op.a[0] as u64) << 32 ^ op.a[1] as u64);
        let r = self.dispatch(op);
        w().step_info = (step, self.me as u32);
        w().ops[op.code as usize] += 1;
        let mut deep = false;
        let ok = r.is_ok();
        match r {
            Ok(()) => {
                if self.lied() {
                    for s in 0..ALLS {
                        if self.mutd[s] {
                            self.slots[s].wild = true;
                        }
                    }
                }
            }
            Err(ab) => {
                self.on_abort(ab);
                deep = true;
            }
        }
        let fired = ctx().fired;
        {
            let c = ctx();
            c.armed = FK::None;
            c.fired = FK::None;
        }
        self.h(fired as u64);
        for s in 0..NS {
            self.note(s);
            if self.slots[s].wild && self.touched[s] {
                probe(P::WildOp);
            }
        }
        let wild = self.on_wild || (0..ALLS).any(|s| self.slots[s].wild);
        self.check_copies(ok, wild);
        self.check_nodes(!ok);
        self.check_all(deep);
        for s in 0..NS {
            if self.touched[s] {
                let n = self.slots[s].model.len() as u64;
                self.h(n);
            }
        }
        if fired != FK::None && fired != FK::Lie && op.a[5] & 1 == 1 && !self.shared.is_null() {
            probe(P::TaskDied);
            return false;
        }
        true
    }

    fn dispatch(&mut self, op: &Op) -> Res<()> {
        use Code::*;
        let a = op.a;
        let s = a[0] as usize % NS;
        let s2 = a[1] as usize % NS;
        match op.code {
            New => {
                let fam = self.fam();
                self.excl(s);
                self.put(s, if a[1] & 1 == 0 { PalmTree::new() } else { Default::default() }, Model::new(), 0, fam, false);
                Ok(())
            }
            Load => self.load(s, a),
            LoadBad => self.load_bad(a),
            FromIter => {
                let items = self.stream_items(a[1], a[2], a[3]);
                let pos = Rc::new(Cell::new(0));
                let src = self.stream(items.clone(), &pos, a[4]);
                let t = self.call(move || src.collect::<Tree<K, V, C>>())?;
                let n = items.len() as u64;
                let allowed = (n + 1) * self.stream_budget(n);
                let model: Model = items.into_iter().collect();
                let wild = self.lied();
                let fam = self.fam();
                self.excl(s);
                self.put(s, t, model, n, fam, wild);
                self.budget(s, allowed, "from_iter");
                Ok(())
            }
            FromBt => {
                let items = self.run_items(a);
                let src: BTreeMap<K, V> = items.iter().map(|(k, p)| (K::mk(*k), V::mk(*p))).collect();
                let t = self.call(move || Tree::<K, V, C>::from(src))?;
                let wild = self.lied();
                let fam = self.fam();
                let n = items.len() as u64;
                self.excl(s);
                self.put(s, t, items.into_iter().collect(), n, fam, wild);
                Ok(())
            }
            Clone => self.clone_to(s, s2),
            Drop => {
                let (t, m, ever, wild) = self.take(s);
                self.may_copy = 0;
                self.pend = Pend::Same;
                let b0 = alloc::LIVE.load(Relaxed);
                match self.call(move || drop(t)) {
                    Err(Ab::Other(_)) if wild => Ok(()),
                    Ok(()) => {
                        self.check_blocks("dropping", b0 - alloc::LIVE.load(Relaxed), m.len() as u64, ever, wild);
                        Ok(())
                    }
                    r => r,
                }
            }
            Get | GetLin | Index => {
                self.shr(s);
                let key = K::mk(a[1]);
                let t = self.t(s);
                let want = self.slots[s].model.get(&a[1]).copied();
                let r = match op.code {
                    Get => self.call(|| t.get(&key).map(|v| v.get()))?,
                    GetLin => self.call(|| t.get_linear(&key).map(|v| v.get()))?,
                    _ => match self.call(|| Some(t[&key].get())) {
                        Err(Ab::Other(_)) => None,
                        r => r?,
                    },
                };
                if self.ok(s) && r != want {
                    self.bad("model:get", s, &format!("{}({}) is {:?}, expected {:?}", op.code.name(), a[1], r, want));
                }
                self.h(r.unwrap_or(1));
                self.budget(s, self.point_budget(s), op.code.name());
                Ok(())
            }
            GetMut | IndexMut => {
                self.excl(s);
                let key = K::mk(a[1]);
                let t = self.tm(s);
                let want = self.slots[s].model.get(&a[1]).copied();
                let write = if a[2] & 1 == 1 { Some(self.pay()) } else { None };
                let f = |v: &mut V| {
                    let p = v.get();
                    if let Some(n) = write {
                        v.set(n);
                    }
                    p
                };
                let r = if op.code == GetMut {
                    self.call(|| t.get_mut(&key).map(f))?
                } else {
                    match self.call(|| Some(f(&mut t[&key]))) {
                        Err(Ab::Other(_)) => None,
                        r => r?,
                    }
                };
                if self.ok(s) && r != want {
                    self.bad("model:get_mut", s, &format!("{}({}) is {:?}, expected {:?}", op.code.name(), a[1], r, want));
                }
                if let (Some(_), Some(n)) = (r, write) {
                    self.slots[s].model.insert(a[1], n);
                }
                self.budget(s, self.point_budget(s), op.code.name());
                Ok(())
            }
            Insert | InsRec => self.insert(s, a[1], if op.code == Insert { 0 } else { 1 }),
            InsRun => {
                let (n, stride) = (a[2], a[3]);
                for i in 0..n {
                    let j = if a[5] & 1 == 1 { n - 1 - i } else { i };
                    let k = a[1].wrapping_add(j.wrapping_mul(stride));
                    if k < u32::MAX - 1 {
                        self.insert(s, k, a[4])?;
                    }
                }
                Ok(())
            }
            Remove => self.remove(s, a[1]),
            RemRun => {
                let (n, stride) = (a[2], a[3]);
                for i in 0..n {
                    let j = if a[4] & 1 == 1 { n - 1 - i } else { i };
                    self.remove(s, a[1].wrapping_add(j.wrapping_mul(stride)))?;
                }
                Ok(())
            }
            RmLow | RmHigh => {
                self.excl(s);
                let low = op.code == RmLow;
                let want = {
                    let m = &self.slots[s].model;
                    if low { m.iter().next() } else { m.iter().next_back() }.map(|(k, v)| (*k, *v))
                };
                if let Some((k, _)) = want {
                    self.pend = Pend::One(s, k, None);
                }
                let t = self.tm(s);
                let r = self.call(|| if low { t.remove_lowest() } else { t.remove_highest() })?;
                let r = r.map(|(k, v)| (k.rank(), v.get()));
                if self.ok(s) && r != want {
                    self.bad("model:remove", s, &format!("{} is {:?}, expected {:?}", op.code.name(), r, want));
                }
                if let Some((k, _)) = r {
                    self.slots[s].model.remove(&k);
                }
                self.budget(s, self.point_budget(s), op.code.name());
                Ok(())
            }
            Entry => self.entry(s, a[1], a[2]),
            Range => {
                self.open_iter(s, a)?;
                self.step_many(s, a[5], u32::MAX)?;
                self.close(s);
                Ok(())
            }
            RangeMut => {
                self.open_mut(s, a)?;
                self.step_many(s, a[5], u32::MAX)?;
                self.close(s);
                Ok(())
            }
            IntoIter => {
                self.open_owned(s, NOWN - 1)?;
                let n = if a[2] == 0 { u32::MAX } else { a[2] };
                self.step_own(NOWN - 1, a[1], n)?;
                match self.own[NOWN - 1].take() {
                    Some(o) if a[3] & 1 == 1 => self.finish_own(o, a[3] >> 1),
                    o => self.drop_own(o),
                }
            }
            OpenIter => self.open_iter(s, a),
            OpenMut => self.open_mut(s, a),
            OpenEntry => self.open_entry(s, a[1]),
            OpenOwned => self.open_owned(s, a[1] as usize % NOWN),
            Step => {
                if a[3] & 1 == 1 {
                    self.step_own(a[0] as usize % NOWN, a[2], a[1])
                } else {
                    self.step_many(s, a[2], a[1])
                }
            }
            CloneIter => self.clone_iter(s, a[1]),
            Close => self.close_with(s, a[1]),
            UseHeld => self.use_held(s, a[1]),
            Merge => self.merge(s, s2, a),
            MergeLazy => self.merge_lazy(s, s2, a),
            MergeStream => self.merge_stream(a),
            Append => self.append(s, s2, a),
            Extend => self.extend(s, s2, a),
            Compare => {
                self.compare(s, s2)?;
                self.compare_odd(s, s2, a[2])
            }
            Rebuild => self.rebuild(s, a),
            Pointers => self.pointers(a),
            Tall => self.tall(s, a),
            Check => {
                if !self.is_mut_open(s) {
                    self.check(s, true);
                }
                Ok(())
            }
            Send | Recv | Publish | Fetch | LockedUpdate | ShareRo | ReadRo | DropRo => {
                if self.shared.is_null() {
                    Ok(())
                } else {
                    self.task_op(op, s)
                }
            }
        }
    }

    // ---- construction ----

    /// ascending items: a[1] of them from a[2], a[3] apart
    fn run_items(&mut self, a: [u32; 6]) -> Vec<(u32, u64)> {
        let (n, start, stride) = (a[1], a[2], a[3].max(1));
        let mut v = Vec::with_capacity(n as usize);
        for i in 0..n {
            let k = start as u64 + i as u64 * stride as u64;
            if k >= u32::MAX as u64 - 2 {
                break;
            }
            let p = self.pay();
            v.push((k as u32, p));
        }
        v
    }
    /// n items in arbitrary order, keys below the universe
    fn stream_items(&mut self, n: u32, seed: u32, universe: u32) -> Vec<(u32, u64)> {
        let u = universe.max(1) as u64;
        (0..n)
            .map(|i| {
                let k = match seed % 4 {
                    0 => i as u64 % u,
                    1 => (u - 1) - i as u64 % u,
                    _ => mix((seed as u64) << 32 | i as u64) % u,
                };
                (k as u32, self.pay())
            })
            .collect()
    }
    fn stream(&self, items: Vec<(u32, u64)>, pos: &Rc<Cell<usize>>, hint: u32) -> Stream<K, V> {
        Stream { items, pos: pos.clone(), hint, _p: std::marker::PhantomData }
    }
    fn stream_budget(&self, ever: u64) -> u64 {
        let base = (self.meta.b / 2).max(2) as f64;
        let lv = 3 + ((ever + 2) as f64).log(base).ceil() as u64;
        lv * (2 * self.meta.b.max(self.meta.l) as u64 + 8) * 2 + lv * lv * 8
    }

    fn load(&mut self, s: usize, a: [u32; 6]) -> Res<()> {
        let items = self.run_items(a);
        let pos = Rc::new(Cell::new(0));
        let src = self.stream(items.clone(), &pos, a[4]);
        let t = self.call(move || Tree::<K, V, C>::load(src))?;
        let wild = self.lied();
        let n = items.len() as u64;
        let fam = self.fam();
        self.excl(s);
        self.put(s, t, items.into_iter().collect(), n, fam, wild);
        self.budget(s, n * 8 + 64, "load");
        Ok(())
    }

    fn load_bad(&mut self, a: [u32; 6]) -> Res<()> {
        if !cfg!(debug_assertions) || ctx().armed == FK::Lie {
            return Ok(());
        }
        let mut items = self.run_items(a);
        if items.len() < 2 {
            return Ok(());
        }
        let i = 1 + a[4] as usize % (items.len() - 1);
        if a[5] & 1 == 0 {
            items[i].0 = items[i - 1].0;
        } else {
            items.swap(i - 1, i);
        }
        let pos = Rc::new(Cell::new(0));
        let src = self.stream(items, &pos, a[5] >> 1);
        match self.call(move || Tree::<K, V, C>::load(src)) {
            Ok(t) => {
                drop(t);
                fatal("model:load-order", &format!("load accepted a stream that is out of order at index {}", i))
            }
            Err(Ab::Other(_)) => {
                probe(P::LoadOrderPanic);
                Ok(())
            }
            Err(e) => Err(e),
        }
    }

    fn clone_to(&mut self, s: usize, d: usize) -> Res<()> {
        self.shr(s);
        let t = self.t(s);
        if !self.meta.shared {
            self.may_copy = self.slots[s].model.len() as u64;
        }
        let (b0, k0, n0) = (alloc::LIVE.load(Relaxed), ctx().kclones, w().news);
        #[allow(clippy::redundant_closure)]
        let c = self.call(|| t.clone())?;
        if self.gates.copies && self.meta.shared && (ctx().kclones > k0 || w().news > n0) {
            self.bad("copies:clone", s, "cloning a tree copied keys or nodes");
        }
        if !self.meta.shared {
            let x = &self.slots[s];
            self.check_blocks("copying", alloc::LIVE.load(Relaxed) - b0, x.model.len() as u64, x.ever, x.wild);
        }
        let (m, e, f, wild) = {
            let x = &self.slots[s];
            (x.model.clone(), x.ever, x.fam, x.wild)
        };
        if s == d {
            drop(c);
            return Ok(());
        }
        let lied = self.lied();
        self.close(d);
        self.put(d, c, m, e, f, wild || lied);
        self.touched[d] = true;
        Ok(())
    }

    // ---- single entries ----

    fn insert(&mut self, s: usize, k: u32, how: u32) -> Res<()> {
        self.excl(s);
        let p = self.pay();
        self.pend = Pend::One(s, k, Some(p));
        let want = self.slots[s].model.get(&k).copied();
        let t = self.tm(s);
        let (key, val) = (K::mk(k), V::mk(p));
        let r = self.call(move || match how % 3 {
            0 => t.insert(key, val),
            1 => t.insert_recursive(key, val),
            _ => match t.entry(key) {
                Entry::Vacant(e) => {
                    e.insert(val);
                    None
                }
                Entry::Occupied(mut e) => Some(e.insert(val)),
            },
        })?;
        let r = r.map(|v| v.get());
        if self.ok(s) && r != want {
            self.bad("model:insert", s, &format!("insert({}) is {:?}, expected {:?}", k, r, want));
        }
        let before = self.slots[s].model.len();
        self.slots[s].model.insert(k, p);
        let added = self.slots[s].model.len() - before;
        self.budget(s, self.point_budget(s), "insert");
        self.slots[s].ever += added as u64;
        Ok(())
    }

    /// A long run of insertions on one side, of which fewer stay the further back they are:
    /// just enough that every branch fills up and is split, and the tree grows taller than
    /// any that holds all its entries could.
    fn tall(&mut self, s: usize, a: [u32; 6]) -> Res<()> {
        let (n, gap, how, desc) = (a[1], a[2].clamp(1, 4096), a[3], a[4] & 1 == 1);
        // the entry to go when entry i has come
        let gone = move |i: u32| gap.checked_shl(i.trailing_zeros()).filter(|d| i > 0 && *d <= i && d >> i.trailing_zeros() == gap).map(|d| i - d);
        let key = move |i: u32| if desc { u32::MAX - 2 - i } else { i };
        self.put(s, PalmTree::new(), Model::new(), 0, 0, false);
        self.slots[s].fam = self.fam();
        let mut i = 0;
        while i < n {
            self.excl(s);
            let end = n.min(i + 4096);
            let p = self.pay();
            let t = self.tm(s);
            ctx().cmps = 0;
            let wrong = self.call(move || {
                for i in i..end {
                    let (k, v) = (K::mk(key(i)), V::mk(p));
                    let old = match how % 3 {
                        0 => t.insert(k, v),
                        1 => t.insert_recursive(k, v),
                        _ => match t.entry(k) {
                            Entry::Vacant(e) => {
                                e.insert(v);
                                None
                            }
                            Entry::Occupied(mut e) => Some(e.insert(v)),
                        },
                    };
                    if old.is_some() {
                        return Some((i, "insert"));
                    }
                    if let Some(j) = gone(i) {
                        let k = K::mk(key(j));
                        if t.remove(&k).is_none() {
                            return Some((j, "remove"));
                        }
                    }
                }
                None
            })?;
            if let Some((i, what)) = wrong {
                self.bad("model:tall", s, &format!("{} of entry {} goes wrong", what, i));
            }
            for i in i..end {
                self.slots[s].model.insert(key(i), p);
                if let Some(j) = gone(i) {
                    self.slots[s].model.remove(&key(j));
                }
            }
            self.slots[s].ever += (end - i) as u64;
            self.budget(s, self.point_budget(s) * 2 * (end - i) as u64, "tall");
            i = end;
        }
        Ok(())
    }

    fn remove(&mut self, s: usize, k: u32) -> Res<()> {
        self.excl(s);
        self.pend = Pend::One(s, k, None);
        let want = self.slots[s].model.get(&k).map(|v| (k, *v));
        let t = self.tm(s);
        let key = K::mk(k);
        let r = self.call(|| t.remove(&key))?;
        let r = r.map(|(k, v)| (k.rank(), v.get()));
        if self.ok(s) && r != want {
            self.bad("model:remove", s, &format!("remove({}) is {:?}, expected {:?}", k, r, want));
        }
        if let Some((k, _)) = r {
            self.slots[s].model.remove(&k);
        }
        self.budget(s, self.point_budget(s), "remove");
        Ok(())
    }

    fn entry(&mut self, s: usize, k: u32, act: u32) -> Res<()> {
        self.excl(s);
        let want = self.slots[s].model.get(&k).copied();
        let p = self.pay();
        let p2 = self.pay();
        let key = K::mk(k);
        let val = V::mk(p);
        let t = self.tm(s);
        let ok = self.ok(s) && ctx().armed != FK::Lie;
        if ok {
            match (want, act % 8) {
                (None, 1 | 2 | 5 | 6) => self.pend = Pend::One(s, k, Some(p)),
                (Some(_), 3) => self.pend = Pend::One(s, k, Some(p)),
                (Some(_), 4 | 5) => self.pend = Pend::One(s, k, None),
                _ => {}
            }
        }
        // (was occupied, what was read or returned, new state of the key if it changed)
        type Out = (bool, Option<(u32, u64)>, Option<Option<u64>>);
        let name = self.meta.name;
        let r: Out = self.call(move || match t.entry(key) {
            Entry::Vacant(e) => match act % 8 {
                1 | 5 => {
                    e.insert(val);
                    (false, None, Some(Some(p)))
                }
                2 | 6 => {
                    let r = e.insert(val);
                    let got = r.get();
                    if ok && got != p {
                        fatal("model:entry-ref", &format!("{}: the reference returned by VacantEntry::insert({}) is to another entry", name, k));
                    }
                    // what was inserted is visible through it before and after a write
                    r.set(p2);
                    (false, None, Some(Some(p2)))
                }
                3 => (false, Some((e.key().rank(), 0)), None),
                4 => (false, Some((e.into_key().rank(), 0)), None),
                7 => {
                    let _ = format!("{:?}", e);
                    (false, None, None)
                }
                _ => (false, None, None),
            },
            Entry::Occupied(mut e) => match act % 8 {
                0 => (true, Some((e.key().rank(), e.get().get())), None),
                1 => (true, Some((e.key().rank(), e.get_mut().get())), None),
                2 => {
                    let got = e.get_mut().get();
                    e.get_mut().set(p2);
                    (true, Some((k, got)), Some(Some(p2)))
                }
                3 => {
                    let old = e.insert(val);
                    if ok && e.get().get() != p {
                        fatal("model:entry-ref", &format!("{}: OccupiedEntry::get({}) after insert reads something else", name, k));
                    }
                    (true, Some((k, old.get())), Some(Some(p)))
                }
                4 => {
                    let v = e.remove();
                    (true, Some((k, v.get())), Some(None))
                }
                5 => {
                    let (k, v) = e.remove_entry();
                    (true, Some((k.rank(), v.get())), Some(None))
                }
                6 => {
                    let r = e.into_mut();
                    let got = r.get();
                    r.set(p2);
                    (true, Some((k, got)), Some(Some(p2)))
                }
                _ => {
                    let _ = format!("{:?}", e);
                    (true, None, None)
                }
            },
        })?;
        if self.ok(s) {
            if r.0 != want.is_some() {
                self.bad("model:entry", s, &format!("entry({}) is {}, expected {}", k, occ(r.0), occ(want.is_some())));
            }
            if let Some(got) = r.1 {
                if got != (k, want.unwrap_or(0)) {
                    self.bad("model:entry", s, &format!("entry({}) read {:?}, expected {:?}", k, got, want));
                }
            }
        }
        self.budget(s, self.point_budget(s), "entry");
        match r.2 {
            Some(Some(p)) => {
                if self.slots[s].model.insert(k, p).is_none() {
                    self.slots[s].ever += 1;
                }
            }
            Some(None) => {
                self.slots[s].model.remove(&k);
            }
            None => {}
        }
        Ok(())
    }

    // ---- cursors ----

    fn range_of(&self, a: [u32; 6]) -> (Bound<u32>, Bound<u32>) {
        bounds(a[3], a[1], a[4], a[2])
    }

    fn open_iter(&mut self, s: usize, a: [u32; 6]) -> Res<()> {
        self.shr(s);
        self.close(s);
        let b = self.range_of(a);
        let t = self.t(s);
        let (lo, hi) = (kb::<K>(b.0), kb::<K>(b.1));
        let whole = matches!(b, (Bound::Unbounded, Bound::Unbounded));
        let how = a[1];
        let it = match self.call(move || {
            if whole && how % 3 == 0 {
                t.iter()
            } else if whole && how % 3 == 1 {
                t.into_iter()
            } else {
                t.range((lo, hi))
            }
        }) {
            Err(Ab::Other(_)) if inverted(b) || !self.ok(s) => {
                probe(P::RangePanic);
                return Ok(());
            }
            r => r?,
        };
        if self.gates.bounds && inverted(b) && self.ok(s) {
            self.bad("model:bounds", s, &format!("range({:?}) did not panic", b));
        }
        self.budget(s, self.point_budget(s) * 2, "range");
        let exp = if inverted(b) { VecDeque::new() } else { model_range(&self.slots[s].model, b) };
        let wild = !self.ok(s);
        self.slots[s].cur = Cur::It(it, exp, wild);
        Ok(())
    }

    fn open_mut(&mut self, s: usize, a: [u32; 6]) -> Res<()> {
        self.excl(s);
        let b = self.range_of(a);
        let t = self.tm(s);
        let (lo, hi) = (kb::<K>(b.0), kb::<K>(b.1));
        let whole = matches!(b, (Bound::Unbounded, Bound::Unbounded));
        let how = a[1];
        let it = match self.call(move || {
            if whole && how % 3 == 0 {
                t.iter_mut()
            } else if whole && how % 3 == 1 {
                t.into_iter()
            } else {
                t.range_mut((lo, hi))
            }
        }) {
            Err(Ab::Other(_)) if inverted(b) || !self.ok(s) => {
                probe(P::RangePanic);
                return Ok(());
            }
            r => r?,
        };
        if self.gates.bounds && inverted(b) && self.ok(s) {
            self.bad("model:bounds", s, &format!("range_mut({:?}) did not panic", b));
        }
        self.budget(s, self.point_budget(s) * 2, "range_mut");
        let exp = if inverted(b) { VecDeque::new() } else { model_range(&self.slots[s].model, b) };
        let wild = !self.ok(s);
        self.slots[s].cur = Cur::Mu { it: Some(it), exp, held: Vec::new(), seen: HashSet::new(), wild };
        Ok(())
    }

    /// Take up to n steps; bit i%32 of the pattern says from which end.
    fn step_many(&mut self, s: usize, pat: u32, n: u32) -> Res<()> {
        let mut i = 0;
        let cap = live_cap::<K>() as u32 + self.slots[s].model.len() as u32 + 64;
        while i < n {
            let back = pattern_back(pat, i);
            if !self.step_cur(s, back, pat, i)? {
                break;
            }
            i += 1;
            if i > cap {
                fatal("hang:iter", "an iterator yields more entries than exist");
            }
            // some patterns stop early
            if pat & 0x700_0000 == 0x300_0000 && i > pat >> 28 {
                break;
            }
        }
        Ok(())
    }

    /// One step of the handle's cursor. False: it is exhausted (or there is none).
    fn step_cur(&mut self, s: usize, back: bool, pat: u32, i: u32) -> Res<bool> {
        let mut cur = std::mem::replace(&mut self.slots[s].cur, Cur::None);
        let budget = self.point_budget(s);
        if let Cur::It(_, _, true) | Cur::Mu { wild: true, .. } = cur {
            self.on_wild = true;
        }
        let r = match &mut cur {
            Cur::It(it, exp, wild) => {
                if !*wild {
                    self.check_hint(s, "an iterator", it.size_hint(), exp.len());
                }
                let skip = skip_of(pat, i, exp.len());
                let budget = budget * (1 + skip.map_or(0, |k| k.min(exp.len())) as u64);
                let got = self.call(|| {
                    match (skip, back) {
                        (Some(k), false) => it.nth(k),
                        (Some(k), true) => it.nth_back(k),
                        (None, false) => it.next(),
                        (None, true) => it.next_back(),
                    }
                    .map(|(k, v)| (k.rank(), v.get()))
                });
                if got.is_ok() {
                    drop_some(exp, skip, back);
                }
                if self.lied() {
                    *wild = true;
                }
                match got {
                    Err(e) => Err(e),
                    Ok(got) => {
                        if !*wild {
                            let want = if back { exp.pop_back() } else { exp.pop_front() };
                            if got != want {
                                self.bad("model:range", s, &format!("iterator{} yielded {:?}, expected {:?}", if back { " (back)" } else { "" }, got, want));
                            }
                            self.budget(s, budget, "iterator step");
                        }
                        if got.is_none() {
                            // stays exhausted, from both ends
                            let more = self.call(|| it.next().is_some() || it.next_back().is_some());
                            match more {
                                Ok(true) if !*wild => self.bad("model:fused", s, "an exhausted iterator yielded again"),
                                Err(e) => {
                                    return Err(e);
                                }
                                _ => {}
                            }
                        }
                        Ok(got.is_some())
                    }
                }
            }
            Cur::Mu { it: Some(it), exp, held, seen, wild } => {
                self.touched[s] = true;
                self.mutd[s] = true;
                self.grant(s);
                if !*wild {
                    self.check_hint(s, "a mutable iterator", it.size_hint(), exp.len());
                }
                let skip = skip_of(pat, i, exp.len());
                let budget = budget * (1 + skip.map_or(0, |k| k.min(exp.len())) as u64);
                let got = self.call(|| match (skip, back) {
                    (Some(k), false) => it.nth(k),
                    (Some(k), true) => it.nth_back(k),
                    (None, false) => it.next(),
                    (None, true) => it.next_back(),
                });
                if got.is_ok() {
                    drop_some(exp, skip, back);
                }
                if self.lied() {
                    *wild = true;
                }
                match got {
                    Err(e) => Err(e),
                    Ok(None) => {
                        if !*wild {
                            if let Some(want) = if back { exp.pop_back() } else { exp.pop_front() } {
                                self.bad("model:range_mut", s, &format!("mutable iterator ended, expected {:?}", want));
                            }
                        }
                        let more = self.call(|| it.next().is_some() || it.next_back().is_some())?;
                        if more && !*wild {
                            self.bad("model:fused", s, "an exhausted mutable iterator yielded again");
                        }
                        Ok(false)
                    }
                    Ok(Some((k, v))) => {
                        let (kr, vp) = (k.rank(), v.get());
                        let addr = v as *mut V as usize;
                        if std::mem::size_of::<V>() > 0 && !seen.insert(addr) {
                            self.bad("alias:iter_mut", s, "mutable iteration handed out a second reference to one value");
                        }
                        let w = *wild;
                        if !w {
                            let want = if back { exp.pop_back() } else { exp.pop_front() };
                            if Some((kr, vp)) != want {
                                self.bad("model:range_mut", s, &format!("mutable iterator{} yielded {:?}, expected {:?}", if back { " (back)" } else { "" }, (kr, vp), want));
                            }
                            self.budget(s, budget, "mutable iterator step");
                        }
                        match mix((pat as u64) << 32 | i as u64) % 4 {
                            0 => {
                                let p = self.pay();
                                v.set(p);
                                if !w {
                                    self.slots[s].model.insert(kr, p);
                                }
                            }
                            1 | 2 if held.len() < 64 => held.push((kr, v, vp)),
                            _ => {}
                        }
                        Ok(true)
                    }
                }
            }
            _ => Ok(false),
        };
        match r {
            Ok(b) => {
                self.slots[s].cur = cur;
                // write through what was kept, in another order
                if !b && matches!(self.slots[s].cur, Cur::Mu { .. }) {
                    for j in 0..4 {
                        self.use_held(s, pat.rotate_left(j * 7) ^ j)?;
                    }
                }
                Ok(b)
            }
            Err(e) => Err(e),
        }
    }

    fn check_hint(&self, s: usize, what: &str, hint: (usize, Option<usize>), n: usize) {
        if hint.0 > n || hint.1.is_some_and(|h| h < n) {
            self.bad("model:size-hint", s, &format!("{} says that {:?} entries remain, but {} do", what, hint, n));
        }
    }

    fn clone_iter(&mut self, s: usize, pat: u32) -> Res<()> {
        let (copy, exp, wild) = match &self.slots[s].cur {
            Cur::It(it, exp, wild) => (it.clone(), exp.clone(), *wild),
            _ => return Ok(()),
        };
        // drain the copy; the original must not notice
        let orig = std::mem::replace(&mut self.slots[s].cur, Cur::It(copy, exp, wild));
        let dbg = pat & 0x80 != 0 && !wild;
        if dbg {
            if let Cur::It(it, exp, _) = &self.slots[s].cur {
                let exp = exp.clone();
                let it = it.clone();
                let got = self.quiet(s, "Iter Debug", || format!("{:?}", it)).unwrap_or_default();
                if !mentions_all(&got, &exp) {
                    self.bad("model:debug", s, &format!("Debug of an iterator is {}, but {:?} remain", got, exp));
                }
            }
        }
        let r = if pat >= 0x100 && pat >> 8 & 1 == 1 && !wild && ctx().armed != FK::Lie {
            match std::mem::replace(&mut self.slots[s].cur, Cur::None) {
                Cur::It(it, exp, _) => {
                    let exp: Vec<(u32, u64)> = exp.into();
                    let r = self.call(move || consume(it, |x| (x.0.rank(), x.1.get()), pat >> 9, &exp));
                    r.map(|r| {
                        if let Err(m) = r {
                            self.bad("model:range", s, &m);
                        }
                    })
                }
                _ => Ok(()),
            }
        } else {
            self.step_many(s, pat, u32::MAX)
        };
        self.slots[s].cur = orig;
        r
    }

    fn use_held(&mut self, s: usize, x: u32) -> Res<()> {
        let p = self.pay();
        if matches!(self.slots[s].cur, Cur::Mu { .. }) {
            self.grant(s);
        }
        if let Cur::Mu { held, wild, it, .. } = &mut self.slots[s].cur {
            if x & 0x30 == 0x30 {
                // references outlive the iterator they came from
                *it = None;
            }
            if held.is_empty() {
                return Ok(());
            }
            let i = x as usize % held.len();
            let wild = *wild;
            let (k, v, last) = &mut held[i];
            let k = *k;
            let got = v.get();
            if got != *last {
                fatal("model:held", &format!("a kept mutable reference to key {} reads {}, expected {}", k, got, last));
            }
            v.set(p);
            *last = p;
            if x & 1 == 1 {
                held.swap_remove(i);
            }
            probe(P::HeldWrite);
            if !wild {
                self.slots[s].model.insert(k, p);
            }
        }
        Ok(())
    }

    fn open_entry(&mut self, s: usize, k: u32) -> Res<()> {
        self.excl(s);
        let t = self.tm(s);
        let key = K::mk(k);
        let e = self.call(move || t.entry(key))?;
        self.budget(s, self.point_budget(s), "entry");
        let occd = matches!(e, Entry::Occupied(_));
        if self.ok(s) && occd != self.slots[s].model.contains_key(&k) {
            self.bad("model:entry", s, &format!("entry({}) is {}", k, occ(occd)));
        }
        self.slots[s].cur = if occd { Cur::Occ(e, k) } else { Cur::Vac(e, k) };
        Ok(())
    }

    fn close_with(&mut self, s: usize, act: u32) -> Res<()> {
        let cur = std::mem::replace(&mut self.slots[s].cur, Cur::None);
        self.touched[s] = true;
        self.mutd[s] = !matches!(cur, Cur::None | Cur::It(..));
        if self.mutd[s] {
            self.grant(s);
        }
        let (p, p2) = (self.pay(), self.pay());
        let wild = self.slots[s].wild;
        match cur {
            Cur::Vac(Entry::Vacant(e), k) => {
                let val = V::mk(p);
                match act % 4 {
                    0 => drop(e),
                    1 => {
                        let got = e.into_key().rank();
                        if got != k {
                            self.bad("model:entry", s, "into_key returned another key");
                        }
                    }
                    _ => {
                        if !wild {
                            self.pend = Pend::One(s, k, Some(p));
                        }
                        let r = self.call(move || {
                            let r = e.insert(val);
                            let got = r.get();
                            if act & 4 != 0 {
                                r.set(p2);
                            }
                            got
                        })?;
                        if self.ok(s) && r != p {
                            self.bad("model:entry-ref", s, "the reference returned by VacantEntry::insert is to another entry");
                        }
                        let fin = if act & 4 != 0 { p2 } else { p };
                        self.slots[s].model.insert(k, fin);
                        self.slots[s].ever += 1;
                    }
                }
            }
            Cur::Occ(Entry::Occupied(mut e), k) => {
                let want = self.slots[s].model.get(&k).copied();
                match act % 4 {
                    0 => drop(e),
                    1 => {
                        let val = V::mk(p);
                        let got = self.call(|| {
                            let o = e.insert(val).get();
                            let mid = e.get().get();
                            e.get_mut().set(p2);
                            (o, mid, e.key().rank())
                        })?;
                        if self.ok(s) && got != (want.unwrap_or(0), p, k) {
                            self.bad("model:entry", s, "a kept entry does not refer to its key");
                        }
                        self.slots[s].model.insert(k, p2);
                    }
                    2 => {
                        self.pend = Pend::One(s, k, None);
                        let got = self.call(move || {
                            let (k, v) = e.remove_entry();
                            (k.rank(), v.get())
                        })?;
                        if self.ok(s) && got != (k, want.unwrap_or(0)) {
                            self.bad("model:entry", s, &format!("remove_entry({}) is {:?}, expected {:?}", k, got, want));
                        }
                        self.slots[s].model.remove(&k);
                    }
                    _ => {
                        let got = self.call(move || {
                            let r = e.into_mut();
                            let o = r.get();
                            r.set(p);
                            o
                        })?;
                        if self.ok(s) && Some(got) != want {
                            self.bad("model:entry", s, "into_mut of a kept entry refers to another value");
                        }
                        self.slots[s].model.insert(k, p);
                    }
                }
            }
            Cur::It(it, ..) => {
                if act & 3 == 3 {
                    std::mem::forget(it);
                    self.dirty = true;
                    self.lost = true;
                }
            }
            Cur::Mu { it: Some(it), exp, wild: false, .. } if act & 12 != 0 && ctx().armed == FK::None => {
                // the rest in one go
                let exp: Vec<(u32, u64)> = exp.into();
                if act & 12 == 4 {
                    let all = self.call(move || {
                        it.fold(Vec::new(), |mut all, (k, v)| {
                            all.push((k.rank(), v));
                            all
                        })
                    })?;
                    let got: Vec<(u32, u64)> = all.iter().map(|(k, v)| (*k, v.get())).collect();
                    if got != exp {
                        let m: Model = exp.into_iter().collect();
                        self.bad("model:range_mut", s, &format!("folding a mutable iterator yields {}", Self::diff(&got, &m)));
                    }
                    for (k, v) in all {
                        let p = self.pay();
                        v.set(p);
                        self.slots[s].model.insert(k, p);
                    }
                } else {
                    let r = self.call(move || consume(it, |x| (x.0.rank(), x.1.get()), act >> 2, &exp))?;
                    if let Err(m) = r {
                        self.bad("model:range_mut", s, &m);
                    }
                }
            }
            Cur::Mu { it, .. } => {
                if act & 3 == 3 {
                    std::mem::forget(it);
                    self.dirty = true;
                    self.lost = true;
                }
            }
            _ => {}
        }
        if act & 0x30 == 0x30 {
            // and one of the owning iterators
            let o = self.own[act as usize >> 6 & 1].take();
            if act & 0x100 != 0 {
                std::mem::forget(o);
                self.dirty = true;
                self.lost = true;
            } else {
                self.drop_own(o)?;
            }
        }
        Ok(())
    }

    /// The pointer kind on its own, holding plain values.
    fn pointers(&mut self, a: [u32; 6]) -> Res<()> {
        let mut all: Vec<(C::PointerKind, u64, u64)> = Vec::new();
        let mut res = Ok(());
        for i in 0..2 + a[2] % 16 {
            let x = mix((a[1] as u64) << 32 | i as u64);
            let at = (x >> 8) as usize % all.len().max(1);
            let c0 = self.copied;
            let mut may = 0;
            let what;
            res = if all.is_empty() || x % 8 == 0 {
                what = "new";
                let p = self.pay();
                let v = V::mk(p);
                self.call(|| unsafe { <C::PointerKind as PointerKind>::new::<V>(v) }).map(|q| {
                    let g = self.fam();
                    all.push((q, p, g));
                })
            } else if x % 8 < 3 {
                what = "clone";
                may = !self.meta.shared as u64;
                let (q, p, g) = &all[at];
                let (p, g) = (*p, *g);
                self.call(|| unsafe { PointerKind::clone::<V>(q) }).map(|q| {
                    let g = if self.meta.shared { g } else { self.fam() };
                    all.push((q, p, g));
                })
            } else if x % 8 < 5 {
                what = "make_mut";
                let g = all[at].2;
                may = (all.iter().filter(|x| x.2 == g).count() > 1) as u64;
                let p = self.pay();
                let q = &mut all[at].0;
                self.call(|| unsafe { q.make_mut::<V>().set(p) }).map(|()| {
                    all[at].1 = p;
                    all[at].2 = self.fam();
                })
            } else if x % 8 < 7 {
                what = "into_raw and from_raw";
                let (q, p, g) = all.swap_remove(at);
                self.call(|| unsafe {
                    let raw = q.into_raw::<V>();
                    let seen = raw.as_ref().get();
                    (<C::PointerKind as PointerKind>::from_raw::<V>(raw), seen)
                })
                .map(|(q, seen)| {
                    if seen != p {
                        fatal("model:pointer", &format!("{}: a raw pointer leads to {}, expected {}", self.meta.name, seen, p));
                    }
                    all.push((q, p, g));
                })
            } else {
                what = "drop_ptr";
                let (mut q, ..) = all.swap_remove(at);
                self.call(move || unsafe { q.drop_ptr::<V>() })
            };
            self.may_copy = self.may_copy.saturating_add(may);
            if self.gates.copies && self.copied - c0 > may {
                fatal("copies:pointer", &format!("{}: {} copied a value for nothing", self.meta.name, what));
            }
            for (q, p, _) in &all {
                let seen = unsafe { q.deref::<V>().get() };
                if seen != *p {
                    fatal("model:pointer", &format!("{}: after {} a pointer leads to {}, expected {}", self.meta.name, what, seen, p));
                }
            }
            if res.is_err() {
                break;
            }
        }
        for (mut q, ..) in all {
            let r = self.call(move || unsafe { q.drop_ptr::<V>() });
            if res.is_ok() {
                res = r;
            }
        }
        res
    }

    // ---- owning iterators ----

    fn open_owned(&mut self, s: usize, i: usize) -> Res<()> {
        let old = self.own[i].take();
        let armed = ctx().armed;
        ctx().armed = FK::None;
        self.drop_own(old)?;
        ctx().armed = armed;
        let (f, n) = (self.slots[s].fam, self.slots[s].model.len() as u64);
        let nodes = self.node_cap(n, self.slots[s].ever);
        let (t, m, _, wild) = self.take(s);
        let c0 = self.copied;
        let it = self.call(move || t.into_iter())?;
        let wild = wild || self.lied();
        let fam = if self.copied - c0 >= n { self.fam() } else { f };
        self.own[i] = Some(Own { it, exp: m.into_iter().collect(), wild, ends: 0, fam, nodes });
        self.check_own(i);
        Ok(())
    }
    fn drop_own(&mut self, o: Option<Own<K, V, C>>) -> Res<()> {
        if let Some(o) = o {
            let wild = o.wild;
            match self.call(move || drop(o)) {
                Err(Ab::Other(_)) if wild => {}
                r => r?,
            }
        }
        Ok(())
    }
    fn check_own(&mut self, i: usize) {
        if let Some(o) = &self.own[i] {
            if !o.wild {
                let n = o.exp.len();
                if o.it.size_hint() != (n, Some(n)) || o.it.len() != n {
                    fatal(
                        "model:owned-len",
                        &format!("an owning iterator reports {:?} remaining, expected {}", o.it.size_hint(), n),
                    );
                }
            }
        }
    }
    fn step_own(&mut self, i: usize, pat: u32, n: u32) -> Res<()> {
        let mut o = match self.own[i].take() {
            Some(o) => o,
            None => return Ok(()),
        };
        self.on_wild |= o.wild;
        let n0 = self.grant_own(&o);
        let c0 = self.copied;
        let cap = live_cap::<K>() as u32 + o.exp.len() as u32 + 64;
        let mut j = 0;
        while j < n {
            let back = pattern_back(pat, j);
            let it = &mut o.it;
            let skip = skip_of(pat, j, o.exp.len());
            let got = self.call(|| match (skip, back) {
                (Some(k), false) => it.nth(k),
                (Some(k), true) => it.nth_back(k),
                (None, false) => it.next(),
                (None, true) => it.next_back(),
            });
            drop_some(&mut o.exp, skip, back);
            let got = match got {
                Ok(g) => g.map(|(k, v)| (k.rank(), v.get())),
                Err(Ab::Other(m)) if o.wild => {
                    let _ = m;
                    probe(P::WildPanic);
                    return Ok(());
                }
                Err(e) => return Err(e),
            };
            if self.lied() {
                o.wild = true;
            }
            if !o.wild {
                let want = if back { o.exp.pop_back() } else { o.exp.pop_front() };
                if got != want {
                    fatal(
                        "model:into_iter",
                        &format!("{}: an owning iterator{} yielded {:?}, expected {:?}", self.meta.name, if back { " (back)" } else { "" }, got, want),
                    );
                }
            }
            o.ends |= 1 << back as u8;
            if o.ends == 3 {
                o.ends = 7;
                probe(P::OwnedBothEnds);
            }
            if got.is_none() {
                let it = &mut o.it;
                if self.call(|| it.next().is_some() || it.next_back().is_some())? && !o.wild {
                    fatal("model:fused", "an exhausted owning iterator yielded again");
                }
                break;
            }
            j += 1;
            if j > cap {
                fatal("hang:iter", "an owning iterator yields more entries than exist");
            }
            if o.exp.len() % 8 == 0 && !o.wild {
                let n = o.exp.len();
                if o.it.size_hint() != (n, Some(n)) {
                    fatal("model:owned-len", "an owning iterator reports a wrong number remaining");
                }
            }
        }
        if n0 > 0 && self.copied - c0 >= n0 {
            o.fam = self.fam();
        }
        self.own[i] = Some(o);
        self.check_own(i);
        Ok(())
    }
    /// As `grant`, for a tree that is being consumed.
    fn grant_own(&mut self, o: &Own<K, V, C>) -> u64 {
        let shared = self.meta.shared
            && (self.slots.iter().any(|x| x.fam == o.fam) || self.own.iter().flatten().any(|x| x.fam == o.fam));
        if shared {
            self.may_copy = self.may_copy.saturating_add(o.exp.len() as u64);
            o.exp.len() as u64
        } else {
            0
        }
    }
    /// Consume what is left in one go.
    fn finish_own(&mut self, o: Own<K, V, C>, how: u32) -> Res<()> {
        if o.wild || ctx().armed == FK::Lie {
            return self.drop_own(Some(o));
        }
        self.grant_own(&o);
        let (it, exp) = (o.it, Vec::from(o.exp));
        if let Err(m) = self.call(move || consume(it, |x| (x.0.rank(), x.1.get()), how, &exp))? {
            fatal("model:into_iter", &format!("{}: {}", self.meta.name, m));
        }
        Ok(())
    }

    // ---- whole trees ----

    fn union(l: &Model, r: &Model, left_wins: bool) -> Model {
        let (win, lose) = if left_wins { (l, r) } else { (r, l) };
        let mut m = lose.clone();
        m.extend(win.iter().map(|(k, v)| (*k, *v)));
        m
    }

    fn merge(&mut self, s: usize, s2: usize, a: [u32; 6]) -> Res<()> {
        if s == s2 {
            return Ok(());
        }
        let d = a[2] as usize % NS;
        let (f1, f2) = (self.slots[s].fam, self.slots[s2].fam);
        let (t1, m1, e1, w1) = self.take(s);
        let (t2, m2, e2, w2) = self.take(s2);
        let side = a[3] % 3;
        let t = match self.call(move || match side {
            0 => Tree::<K, V, C>::merge_left(t1, t2),
            1 => Tree::<K, V, C>::merge_right(t1, t2),
            _ => t1 + t2,
        }) {
            Err(Ab::Other(m)) if w1 || w2 => {
                let _ = m;
                probe(P::WildPanic);
                return Ok(());
            }
            r => r?,
        };
        let wild = w1 || w2 || self.lied();
        let n = (m1.len() + m2.len()) as u64;
        let cm = self.last_cmps;
        let fam = self.join(f1, f2);
        self.excl(d);
        self.put(d, t, Self::union(&m1, &m2, side == 0), e1 + e2, fam, wild);
        self.last_cmps = cm;
        self.budget(d, n * 12 + 128, "merge");
        Ok(())
    }

    fn merge_lazy(&mut self, s: usize, s2: usize, a: [u32; 6]) -> Res<()> {
        if s == s2 {
            return Ok(());
        }
        let (t1, m1, _, w1) = self.take(s);
        let (t2, m2, _, w2) = self.take(s2);
        let left = a[3] % 2 == 0;
        let stop = if a[2] == 0 { usize::MAX } else { a[2] as usize };
        let want: Vec<(u32, u64)> = Self::union(&m1, &m2, left).into_iter().collect();
        let cap = live_cap::<K>() as usize + m1.len() + m2.len() + 64;
        if a[4] & 1 == 1 && !w1 && !w2 && ctx().armed != FK::Lie {
            let how = a[4] >> 1;
            let r = self.call(move || {
                if left {
                    consume_fwd(Tree::<K, V, C>::merge_left_iter(t1, t2), |x| (x.0.rank(), x.1.get()), how, &want)
                } else {
                    consume_fwd(Tree::<K, V, C>::merge_right_iter(t1, t2), |x| (x.0.rank(), x.1.get()), how, &want)
                }
            })?;
            if let Err(m) = r {
                self.bad("model:merge", s, &format!("lazy merge: {}", m));
            }
            return Ok(());
        }
        let run = move |it: &mut dyn Iterator<Item = (K, V)>| -> (Vec<(u32, u64)>, bool) {
            let mut out = Vec::new();
            while out.len() < stop {
                match it.next() {
                    Some((k, v)) => out.push((k.rank(), v.get())),
                    None => return (out, it.next().is_none()),
                }
                if out.len() > cap {
                    fatal("hang:iter", "a lazy merge yields more entries than exist");
                }
            }
            (out, true)
        };
        let (got, fused) = match self.call(move || {
            if left {
                run(&mut Tree::<K, V, C>::merge_left_iter(t1, t2))
            } else {
                run(&mut Tree::<K, V, C>::merge_right_iter(t1, t2))
            }
        }) {
            Err(Ab::Other(_)) if w1 || w2 => {
                probe(P::WildPanic);
                return Ok(());
            }
            r => r?,
        };
        if !w1 && !w2 && !self.lied() {
            let want = &want[..want.len().min(stop)];
            if got != want {
                let m: Model = want.iter().copied().collect();
                self.bad("model:merge", s, &format!("lazy merge yielded {}", Self::diff(&got, &m)));
            }
            if !fused {
                self.bad("model:merge", s, "a lazy merge went on after its end");
            }
        }
        Ok(())
    }

    /// The public merge iterator over two plain ascending streams.
    fn merge_stream(&mut self, a: [u32; 6]) -> Res<()> {
        let l: Model = self.stream_items(a[1], a[3] | 2, a[5].max(1)).into_iter().collect();
        let r: Model = self.stream_items(a[2], a[4] | 2, a[5].max(1)).into_iter().collect();
        let left = a[0] & 1 == 0;
        let pl = Rc::new(Cell::new(0));
        let pr = Rc::new(Cell::new(0));
        let sl = self.stream(l.iter().map(|(k, v)| (*k, *v)).collect(), &pl, 0);
        let sr = self.stream(r.iter().map(|(k, v)| (*k, *v)).collect(), &pr, 1);
        let want: Vec<(u32, u64)> = Self::union(&l, &r, left).into_iter().collect();
        let cap = want.len() + 8;
        let got: Vec<(u32, u64)> = self.call(move || {
            let it = MergeIter::merge(
                sl,
                sr,
                |a: &(K, V), b: &(K, V)| if left { a.0 > b.0 } else { a.0 >= b.0 },
                |a: &(K, V), b: &(K, V)| a.0 == b.0,
            );
            it.take(cap).map(|(k, v)| (k.rank(), v.get())).collect()
        })?;
        if !self.lied() && got != want {
            let m: Model = want.into_iter().collect();
            self.bad("model:merge", 0, &format!("merge of two streams yielded {}", Self::diff(&got, &m)));
        }
        Ok(())
    }

    fn append(&mut self, s: usize, s2: usize, a: [u32; 6]) -> Res<()> {
        if s == s2 {
            return Ok(());
        }
        let f2 = self.slots[s2].fam;
        let (t2, m2, e2, w2) = self.take(s2);
        self.excl(s);
        let fam = self.join(self.slots[s].fam, f2);
        self.slots[s].fam = fam;
        if w2 {
            self.slots[s].wild = true;
        }
        self.pend = Pend::Bulk(s, m2.clone());
        let side = a[2] % 3;
        let t = self.tm(s);
        self.call(move || match side {
            0 => t.append_left(t2),
            1 => t.append_right(t2),
            _ => *t += t2,
        })?;
        let m = Self::union(&self.slots[s].model, &m2, side == 0);
        let n = (self.slots[s].model.len() + m2.len()) as u64;
        self.slots[s].model = m;
        self.slots[s].ever += e2;
        self.budget(s, n * 12 + 128, "append");
        Ok(())
    }

    fn extend(&mut self, s: usize, s2: usize, a: [u32; 6]) -> Res<()> {
        let kind = a[4] % 8;
        if kind >= 4 && self.hooks.is_some() {
            return self.extend_copy(s, s2, a, kind);
        }
        let items = self.stream_items(a[2], a[3], a[5]);
        let pos = Rc::new(Cell::new(0));
        let src = self.stream(items.clone(), &pos, a[4]);
        self.excl(s);
        self.pend = Pend::Stream(s, items.clone(), pos);
        let t = self.tm(s);
        self.call(move || t.extend(src))?;
        let n = items.len() as u64;
        self.slots[s].ever += n;
        self.slots[s].model.extend(items);
        self.budget(s, (n + 1) * self.point_budget(s), "extend");
        Ok(())
    }

    fn extend_copy(&mut self, s: usize, s2: usize, a: [u32; 6], kind: u32) -> Res<()> {
        let h = self.hooks.take().unwrap();
        let (fe, fa, faa) = (h.extend_ref, h.add_ref, h.add_assign_ref);
        let (mk, fo, fao) = (h.other, h.add_other, h.assign_other);
        self.hooks = Some(h);
        self.may_copy = u64::MAX;
        // for the sums: with a tree of another configuration
        let other = if kind >= 6 && a[3] & 1 == 1 && !self.slots[s2].wild {
            let items: Vec<(K, V)> = self.slots[s2].model.iter().map(|(k, p)| (K::mk(*k), V::mk(*p))).collect();
            Some(mk(&items))
        } else {
            None
        };
        match kind {
            4 | 5 => {
                let items = self.stream_items(a[2], a[3], a[5]);
                let pairs: Vec<(K, V)> = items.iter().map(|(k, p)| (K::mk(*k), V::mk(*p))).collect();
                // the slice outlives the call
                let sl: &'static [(K, V)] = unsafe { &*(&pairs[..] as *const [(K, V)]) };
                let pos = Rc::new(Cell::new(0usize));
                let p2 = pos.clone();
                self.excl(s);
                self.pend = Pend::Stream(s, items.clone(), pos);
                let t = self.tm(s);
                let r = self.call(move || {
                    let mut it = sl.iter().inspect(|_| {
                        tick(FK::Src);
                        p2.set(p2.get() + 1)
                    });
                    fe(t, &mut it)
                });
                drop(pairs);
                r?;
                let n = items.len() as u64;
                self.slots[s].ever += n;
                self.slots[s].model.extend(items);
                self.budget(s, (n + 1) * self.point_budget(s), "extend");
            }
            6 => {
                if s == s2 {
                    return Ok(());
                }
                self.shr(s2);
                let f1 = self.slots[s].fam;
                let (t, m, e, wild) = self.take(s);
                let t2 = self.t(s2);
                let w2 = self.slots[s2].wild;
                let r = match self.call(move || match &other {
                    Some(o) => fo(t, &**o),
                    None => fa(t, t2),
                }) {
                    Err(Ab::Other(_)) if wild || w2 => return Ok(()),
                    r => r?,
                };
                let cm = self.last_cmps;
                let u = Self::union(&m, &self.slots[s2].model, false);
                let n = (m.len() + self.slots[s2].model.len()) as u64;
                let fam = self.join(f1, self.slots[s2].fam);
                let ever = e + self.slots[s2].ever;
                let wild = wild || w2 || self.lied();
                self.put(s, r, u, ever, fam, wild);
                self.last_cmps = cm;
                self.budget(s, n * 12 + 128, "tree + &tree");
            }
            _ => {
                if s == s2 {
                    return Ok(());
                }
                self.shr(s2);
                self.excl(s);
                if self.slots[s2].wild {
                    self.slots[s].wild = true;
                }
                self.pend = Pend::Bulk(s, self.slots[s2].model.clone());
                let t = self.tm(s);
                let t2 = self.t(s2);
                self.call(move || match &other {
                    Some(o) => fao(t, &**o),
                    None => faa(t, t2),
                })?;
                let u = Self::union(&self.slots[s].model, &self.slots[s2].model, false);
                let n = (self.slots[s].model.len() + self.slots[s2].model.len()) as u64;
                self.slots[s].model = u;
                self.slots[s].ever += self.slots[s2].ever;
                self.join(self.slots[s].fam, self.slots[s2].fam);
                self.budget(s, n * 12 + 128, "tree += &tree");
            }
        }
        Ok(())
    }

    // ---- comparison of whole trees ----

    fn compare(&mut self, s: usize, s2: usize) -> Res<()> {
        self.shr(s);
        self.shr(s2);
        let (a, b) = (self.t(s), self.t(s2));
        let r = self.call(|| (a == b, b == a, a != b, a.cmp(b), b.cmp(a), a.partial_cmp(b)));
        let ok = self.ok(s) && self.ok(s2);
        let r = match r {
            Err(Ab::Other(_)) if !ok => return Ok(()),
            r => r?,
        };
        if !ok {
            return Ok(());
        }
        let n = (self.slots[s].model.len() + self.slots[s2].model.len()) as u64;
        self.budget(s, n * 24 + 128, "comparison of trees");
        let (m1, m2) = (&self.slots[s].model, &self.slots[s2].model);
        let eq = m1 == m2;
        let o = m1.iter().cmp(m2.iter());
        if !eq {
            probe(P::Unequal);
        }
        if r != (eq, eq, !eq, o, o.reverse(), Some(o)) {
            self.bad(
                "model:compare",
                s,
                &format!("(==, ==, !=, cmp, reverse cmp, partial_cmp) with handle {} are {:?}; the contents are {}equal and compare as {:?}", s2, r, if eq { "" } else { "un" }, o),
            );
        }
        if eq {
            self.same_looks(s, a, b)?;
        }
        self.h(o as i8 as u64);
        Ok(())
    }
    /// The same contents under values that are not equal to themselves and not always ordered.
    fn compare_odd(&mut self, s: usize, s2: usize, how: u32) -> Res<()> {
        if how < 4 || !self.ok(s) || !self.ok(s2) || self.slots[s].model.len() + self.slots[s2].model.len() > 1500 {
            return Ok(());
        }
        if let Err(m) = odd_trees(&self.slots[s].model, &self.slots[s2].model, how) {
            self.bad("model:compare", s, &format!("with values that are only partially ordered, against handle {}: {}", s2, m));
        }
        Ok(())
    }
    /// Two trees with the same contents hash and print alike.
    fn same_looks(&mut self, s: usize, a: &Tree<K, V, C>, b: &Tree<K, V, C>) -> Res<()> {
        let hash = |t: &Tree<K, V, C>| {
            let mut h = DefaultHasher::new();
            t.hash(&mut h);
            h.finish()
        };
        let (x, y) = self.call(|| (hash(a), hash(b)))?;
        if x != y && !self.lied() {
            self.bad("model:hash", s, "trees with equal contents have different hashes");
        }
        if self.slots[s].model.len() <= 400 {
            let items: VecDeque<_> = self.slots[s].model.iter().map(|(k, v)| (*k, *v)).collect();
            let (x, y) = self.call(|| (format!("{:?}", a), format!("{:?}", b)))?;
            let (x2, y2) = self.call(|| (format!("{:#?}", a), format!("{:#?}", b)))?;
            for (x, y) in [(x, y), (x2, y2)] {
                if (x != y || !mentions_all(&x, &items)) && !self.lied() {
                    self.bad("model:debug", s, &format!("trees with equal contents print differently or incompletely: {} and {}", x, y));
                }
            }
        }
        Ok(())
    }

    /// Build the same contents another way and compare; then change one thing and compare.
    fn rebuild(&mut self, s: usize, a: [u32; 6]) -> Res<()> {
        self.shr(s);
        self.may_copy = u64::MAX;
        if self.slots[s].wild || ctx().armed == FK::Lie {
            return Ok(());
        }
        let mut m: Vec<(u32, u64)> = self.slots[s].model.iter().map(|(k, v)| (*k, *v)).collect();
        if m.len() > 3000 {
            return Ok(());
        }
        let model = self.slots[s].model.clone();
        let how = a[1] % 6;
        let seed = a[2] as u64;
        let t0 = self.t(s);
        // the other history runs without faults; the comparison below is what is under test
        let armed = ctx().armed;
        ctx().armed = FK::None;
        let built = self.call(|| {
            let item = |(k, p): &(u32, u64)| (K::mk(*k), V::mk(*p));
            let mut t: Tree<K, V, C> = PalmTree::new();
            match how {
                0 => t = PalmTree::load(m.iter().map(item)),
                1 => {
                    m.sort_by_key(|(k, _)| mix(seed ^ *k as u64));
                    for e in &m {
                        t.insert(K::mk(e.0), V::mk(e.1));
                    }
                }
                2 => {
                    // insert more than needed, then remove the rest
                    let extra: Vec<u32> = m.iter().flat_map(|(k, _)| [k.wrapping_add(1), k.wrapping_sub(1)]).filter(|k| !model.contains_key(k) && *k < u32::MAX - 2).collect();
                    for k in &extra {
                        t.insert(K::mk(*k), V::mk(0));
                    }
                    for e in m.iter().rev() {
                        t.insert(K::mk(e.0), V::mk(e.1));
                    }
                    for k in &extra {
                        t.remove(&K::mk(*k));
                    }
                }
                3 => {
                    for e in m.iter().rev() {
                        t.insert_recursive(K::mk(e.0), V::mk(0));
                    }
                    for e in &m {
                        t.insert(K::mk(e.0), V::mk(e.1));
                    }
                }
                4 => t = t0.clone(),
                _ => {
                    let h = m.len() / 2;
                    let l: Tree<K, V, C> = m[..h].iter().map(item).collect();
                    t = PalmTree::merge_left(l, m[h..].iter().map(item).collect());
                }
            }
            t
        })?;
        ctx().armed = armed;
        let mut t = built;
        // the hash, print and comparisons under the fault
        let r = self.call(|| (*t0 == t, t == *t0, t0.cmp(&t), t.partial_cmp(t0)))?;
        if r != (true, true, Ordering::Equal, Some(Ordering::Equal)) {
            self.bad("model:compare", s, &format!("trees with equal contents: (==, ==, cmp, partial_cmp) are {:?}", r));
        }
        self.same_looks(s, t0, &t)?;
        // now make it differ in one place
        let armed = ctx().armed;
        ctx().armed = FK::None;
        let mut m2 = model.clone();
        let keys: Vec<u32> = m2.keys().copied().collect();
        let pick = if keys.is_empty() { 0 } else { keys[(mix(seed) % keys.len() as u64) as usize] };
        let p = self.pay();
        self.call(|| match a[3] % 3 {
            0 => {
                t.remove(&K::mk(pick));
                m2.remove(&pick);
            }
            1 if V::PAYLOAD => {
                t.insert(K::mk(pick), V::mk(p));
                m2.insert(pick, p);
            }
            _ => {
                let k = pick.wrapping_add(1 + a[4] % 3);
                t.insert(K::mk(k), V::mk(p));
                m2.insert(k, p);
            }
        })?;
        ctx().armed = armed;
        let r = self.call(|| (*t0 == t, t == *t0, t0.cmp(&t), t.cmp(t0)))?;
        let o = model.iter().cmp(m2.iter());
        let eq = model == m2;
        if r != (eq, eq, o, o.reverse()) {
            self.bad("model:compare", s, &format!("after changing key {}: (==, ==, cmp, reverse cmp) are {:?}, expected {:?}", pick, r, (eq, eq, o, o.reverse())));
        }
        if !eq {
            probe(P::Unequal);
            let hash = |t: &Tree<K, V, C>| {
                let mut h = DefaultHasher::new();
                t.hash(&mut h);
                h.finish()
            };
            let (x, y) = self.call(|| (hash(t0), hash(&t)))?;
            if x == y && !self.lied() {
                self.bad("model:hash", s, "trees with different contents feed the same to a hasher");
            }
            if model.len() < 200 {
                let (x, y) = self.call(|| (format!("{:?}", t0), format!("{:?}", t)))?;
                if x == y && !self.lied() {
                    self.bad("model:debug", s, "trees with different contents print alike");
                }
            }
        }
        let got = self.call(|| t.iter().map(|(k, v)| (k.rank(), v.get())).eq(m2.iter().map(|(k, v)| (*k, *v))))?;
        if !got {
            self.bad("model:iter", s, "a rebuilt tree does not hold what was put into it");
        }
        Ok(())
    }

    // ---- between tasks ----

    fn sh(&self) -> &'static mut Shared<K, V, C> {
        unsafe { &mut *self.shared }
    }
    fn lock(&self) {
        while self.sh().locked {
            probe(P::LockWait);
            sched::block();
        }
        self.sh().locked = true;
    }
    fn unlock(&self) {
        self.sh().locked = false;
        sched::wake_all();
    }
    fn msg_of(&mut self, s: usize) -> Res<Msg<K, V, C>> {
        self.shr(s);
        let t = self.t(s);
        #[allow(clippy::redundant_closure)]
        let tree = self.call(|| t.clone())?;
        let x = &self.slots[s];
        Ok(Msg { tree, model: x.model.clone(), ever: x.ever, fam: x.fam, wild: x.wild || self.lied() })
    }

    fn task_op(&mut self, op: &Op, s: usize) -> Res<()> {
        use Code::*;
        let a = op.a;
        match op.code {
            Send => {
                let to = a[1] as usize % self.sh().boxes.len();
                let moved = a[2] & 1 == 1;
                let m = if moved {
                    let fam = self.slots[s].fam;
                    let (tree, model, ever, wild) = self.take(s);
                    Msg { tree, model, ever, fam, wild }
                } else {
                    self.msg_of(s)?
                };
                match a[3] % 8 {
                    0 => {
                        probe(P::MsgLost);
                        drop(m)
                    }
                    1 => {
                        probe(P::MsgDup);
                        // the network's copy
                        let c = Msg { tree: m.tree.clone(), model: m.model.clone(), ever: m.ever, fam: m.fam, wild: m.wild };
                        self.sh().boxes[to].push_back(m);
                        self.sh().boxes[to].push_back(c);
                    }
                    2 => {
                        probe(P::MsgReorder);
                        self.sh().boxes[to].push_front(m)
                    }
                    _ => self.sh().boxes[to].push_back(m),
                }
            }
            Recv => {
                let me = self.me;
                let b = &mut self.sh().boxes[me];
                if b.is_empty() {
                    return Ok(());
                }
                let i = a[1] as usize % b.len().min(2);
                if let Some(m) = b.remove(i) {
                    self.excl(s);
                    self.put(s, m.tree, m.model, m.ever, m.fam, m.wild);
                }
            }
            Publish => {
                let m = self.msg_of(s)?;
                self.lock();
                let old = self.sh().cell.replace(m);
                // dropping the last handle to a snapshot while others work on theirs
                let r = self.call(move || drop(old));
                self.unlock();
                r?;
            }
            Fetch => {
                self.lock();
                let r = match &self.sh().cell {
                    None => Ok(None),
                    Some(c) => {
                        let t: &'static Tree<K, V, C> = unsafe { &*(&c.tree as *const _) };
                        #[allow(clippy::redundant_closure)]
                        self.call(|| t.clone()).map(Some)
                    }
                };
                let meta = self.sh().cell.as_ref().map(|c| (c.model.clone(), c.ever, c.fam, c.wild));
                self.unlock();
                if let (Some(t), Some((m, e, f, wild))) = (r?, meta) {
                    let lied = self.lied();
                    self.excl(s);
                    self.put(s, t, m, e, f, wild || lied);
                }
            }
            LockedUpdate => {
                self.lock();
                if let Some(c) = self.sh().cell.take() {
                    self.put(SCR, c.tree, c.model, c.ever, c.fam, c.wild);
                    let r = match a[2] % 4 {
                        0 => self.insert(SCR, a[1], a[3]),
                        1 => self.remove(SCR, a[1]),
                        2 => self.entry(SCR, a[1], a[3]),
                        _ => {
                            let r = self.open_mut(SCR, [0, 0, 0, 2, 2, 0]).and_then(|()| self.step_many(SCR, a[3], a[1] % 64));
                            self.close(SCR);
                            r
                        }
                    };
                    let out = match r {
                        Err(ab) => {
                            self.on_abort(ab);
                            self.check(SCR, true);
                            Ok(())
                        }
                        r => r,
                    };
                    if self.lied() {
                        self.slots[SCR].wild = true;
                    }
                    let fam = self.slots[SCR].fam;
                    let (tree, model, ever, wild) = self.take(SCR);
                    self.touched[SCR] = false;
                    self.sh().cell = Some(Msg { tree, model, ever, fam, wild });
                    self.unlock();
                    out?;
                } else {
                    self.unlock();
                }
            }
            ShareRo => {
                let m = self.msg_of(s)?;
                if !m.wild {
                    let old = self.sh().ro.replace((Arc::new(m.tree), Arc::new(m.model)));
                    self.call(move || drop(old))?;
                }
            }
            ReadRo => {
                if let Some((t, m)) = self.sh().ro.clone() {
                    probe(P::RoRead);
                    self.ro = Some((t, m));
                }
                if let Some((t, m)) = self.ro.clone() {
                    let key = K::mk(a[1]);
                    let got = self.call(|| t.get(&key).map(|v| v.get()))?;
                    if got != m.get(&a[1]).copied() && !self.lied() {
                        fatal("model:shared-read", "a tree read by several tasks returned a wrong value");
                    }
                    let n = a[2] as usize % 200;
                    let seen = |(k, v): (&K, &V)| {
                        // another task may run between two steps
                        tick(FK::None);
                        (k.rank(), v.get())
                    };
                    let r = self.call(|| t.iter().map(seen).take(n).collect::<Vec<_>>())?;
                    if !self.lied() && r.iter().copied().ne(m.iter().map(|(k, v)| (*k, *v)).take(n)) {
                        fatal("model:shared-read", "a tree read by several tasks iterated wrongly");
                    }
                    self.read_ro(&t, &m, a[1], a[3])?;
                }
            }
            DropRo => {
                let old = self.ro.take();
                self.call(move || drop(old))?;
            }
            _ => {}
        }
        Ok(())
    }

    /// More ways to read a tree that other tasks are reading, cloning or letting go of.
    fn read_ro(&mut self, t: &Tree<K, V, C>, m: &Model, k: u32, how: u32) -> Res<()> {
        if ctx().armed == FK::Lie {
            return Ok(());
        }
        let bad = |what: &str| fatal("model:shared-read", &format!("a tree read by several tasks: {} is wrong", what));
        let seen = |(k, v): (&K, &V)| {
            tick(FK::None);
            (k.rank(), v.get())
        };
        match how % 8 {
            0 => {
                let key = K::mk(k);
                if self.call(|| t.get_linear(&key).map(|v| v.get()))? != m.get(&k).copied() {
                    bad("get_linear");
                }
            }
            1 => {
                let b = bounds(how >> 3, k, how >> 5, k.saturating_add(how >> 8 & 63));
                if !inverted(b) {
                    let (lo, hi) = (kb::<K>(b.0), kb::<K>(b.1));
                    let r = self.call(|| t.range((lo, hi)).map(seen).collect::<Vec<_>>())?;
                    if model_range(m, b) != r {
                        bad("a range");
                    }
                }
            }
            2 => {
                let n = how as usize >> 3 & 127;
                let r = self.call(|| t.iter().rev().map(seen).take(n).collect::<Vec<_>>())?;
                if r.into_iter().ne(m.iter().rev().map(|(k, v)| (*k, *v)).take(n)) {
                    bad("the iteration from the back");
                }
            }
            3 => {
                // a private copy, changed while the original is read
                let (key, key2, val) = (K::mk(k), K::mk(k), V::mk(0));
                let (c, n) = self.call(move || {
                    let mut c = t.clone();
                    let n = c.len();
                    if how & 8 == 0 {
                        c.insert(key, val);
                    } else {
                        c.remove(&key2);
                    }
                    (c, n)
                })?;
                let mut m2 = m.clone();
                if how & 8 == 0 {
                    m2.insert(k, 0);
                } else {
                    m2.remove(&k);
                }
                if n != m.len() || c.len() != m2.len() {
                    bad("the length of a changed clone");
                }
                let r = self.call(move || c.iter().map(seen).collect::<Vec<_>>())?;
                if r.into_iter().ne(m2) {
                    bad("a changed clone");
                }
            }
            4 => {
                if self.call(|| (t == t, t.cmp(t)))? != (true, Ordering::Equal) {
                    bad("the comparison with itself");
                }
            }
            5 if m.len() <= 200 => {
                let s = self.call(|| format!("{:?}", t))?;
                if !mentions_all(&s, &m.iter().map(|(k, v)| (*k, *v)).collect()) {
                    bad("the printed form");
                }
            }
            6 => {
                if t.len() != m.len() || t.is_empty() == (t.len() > 0) {
                    bad("the length");
                }
            }
            _ => {}
        }
        Ok(())
    }

    /// End of the run: check everything once more, then let go of everything.
    pub fn finish(&mut self, step: u32, alive: bool) {
        self.step = step;
        w().step_info = (step, self.me as u32);
        w().progress += 1;
        {
            let c = ctx();
            c.gate = false;
            c.armed = FK::None;
            c.fired = FK::None;
        }
        for s in 0..ALLS {
            self.close(s);
        }
        if alive {
            for s in 0..NS {
                self.check(s, true);
            }
            // what is still being consumed can be consumed to the end
            for i in 0..NOWN {
                if let Some(o) = &self.own[i] {
                    if o.exp.len() < 5000 {
                        let _ = self.step_own(i, 0x5a5a * i as u32, u32::MAX);
                    }
                }
            }
        }
        for i in 0..NOWN {
            let o = self.own[i].take();
            if let Err(Ab::Other(m)) = self.drop_own(o) {
                fatal("panic:drop", &m);
            }
        }
        // consume half of the handles, drop the others
        for s in 0..ALLS {
            let (t, m, _, wild) = self.take(s);
            if s % 2 == 0 && alive && m.len() < 5000 {
                let cap = live_cap::<K>() as usize + 64 + m.len();
                let r = self.call(move || {
                    let mut out = Vec::new();
                    for (k, v) in t {
                        out.push((k.rank(), v.get()));
                        if out.len() > cap {
                            fatal("hang:iter", "an owning iterator yields more entries than exist");
                        }
                    }
                    out
                });
                match r {
                    Ok(out) => {
                        if !wild && out.into_iter().ne(m) {
                            self.bad("model:into_iter", s, "consuming the tree at the end did not yield its entries");
                        }
                    }
                    Err(Ab::Other(_)) if wild => {}
                    Err(Ab::Other(m)) => fatal("panic:unexpected", &m),
                    Err(_) => {}
                }
            } else {
                match self.call(move || drop(t)) {
                    Err(Ab::Other(m)) if !wild => fatal("panic:drop", &m),
                    _ => {}
                }
            }
        }
        self.ro = None;
        for s in 0..ALLS {
            let p = std::mem::replace(&mut self.slots[s].tree, std::ptr::null_mut());
            if !p.is_null() {
                drop(unsafe { Box::from_raw(p) });
            }
        }
        self.slots.clear();
        self.own.clear();
    }
}

fn occ(b: bool) -> &'static str {
    if b {
        "occupied"
    } else {
        "vacant"
    }
}
/// Which end step i of a pattern takes from.
fn pattern_back(pat: u32, i: u32) -> bool {
    match pat % 5 {
        0 => false,
        1 => true,
        2 => i % 2 == 1,
        _ => mix((pat as u64) << 20 | i as u64) & 1 == 1,
    }
}
/// The keys appear in this order.
fn mentions_all(s: &str, items: &VecDeque<(u32, u64)>) -> bool {
    let mut rest = s;
    for (k, _) in items {
        let k = k.to_string();
        match rest.find(&k) {
            Some(i) => rest = &rest[i + k.len()..],
            None => return false,
        }
    }
    true
}

/// Now and then an iterator is told to skip entries; never a simple pattern.
fn skip_of(pat: u32, i: u32, left: usize) -> Option<usize> {
    let r = mix((pat as u64) << 32 | i as u64 | 1 << 31);
    if pat >= 32 && r % 9 == 0 {
        // rarely past the end
        Some((r >> 8) as usize % if r & 0x70 == 0 { left + 3 } else { 6 })
    } else {
        None
    }
}
fn drop_some(exp: &mut VecDeque<(u32, u64)>, skip: Option<usize>, back: bool) {
    if let Some(k) = skip {
        let k = k.min(exp.len());
        if back {
            exp.truncate(exp.len() - k);
        } else {
            exp.drain(..k);
        }
    }
}

/// Use up an iterator with one of the standard methods, which it may implement
/// itself: they are called on the iterator itself, as adaptors do not pass them on.
fn consume_fwd<T: Ord>(mut it: impl Iterator<Item = T>, pair: impl Fn(&T) -> (u32, u64) + Copy, how: u32, exp: &[(u32, u64)]) -> Result<(), String> {
    let ne = |what: &str, got: &dyn std::fmt::Debug, want: &dyn std::fmt::Debug| {
        Err(format!("{} is {:?}, expected {:?}", what, got, want))
    };
    let hint = it.size_hint();
    if hint.0 > exp.len() || hint.1.is_some_and(|h| h < exp.len()) {
        return ne("size_hint", &hint, &exp.len());
    }
    match how % 12 {
        0 => {
            let n = it.count();
            if n != exp.len() {
                return ne("count", &n, &exp.len());
            }
        }
        1 => {
            let l = it.last().map(|x| pair(&x));
            if l != exp.last().copied() {
                return ne("last", &l, &exp.last());
            }
        }
        2 => {
            let all = it.fold(Vec::new(), |mut a, x| {
                a.push(pair(&x));
                a
            });
            if all != exp {
                return ne("fold", &all.len(), &exp.len());
            }
        }
        3 => {
            let m = it.max().map(|x| pair(&x));
            if m != exp.iter().max().copied() {
                return ne("max", &m, &exp.iter().max());
            }
        }
        4 => {
            let m = it.min().map(|x| pair(&x));
            if m != exp.iter().min().copied() {
                return ne("min", &m, &exp.iter().min());
            }
        }
        5 => {
            let n = how as usize / 12 % 5 + 1;
            let got: Vec<_> = it.step_by(n).map(|x| pair(&x)).collect();
            if got.into_iter().ne(exp.iter().step_by(n).copied()) {
                return Err(format!("step_by({}) goes wrong", n));
            }
        }
        6 => {
            let n = how as usize / 12 % 16;
            let got: Vec<_> = it.skip(n).map(|x| pair(&x)).collect();
            if got.into_iter().ne(exp.iter().skip(n).copied()) {
                return Err(format!("skip({}) goes wrong", n));
            }
        }
        7 => {
            let (a, b): (Vec<_>, Vec<_>) = it.partition(|x| pair(x).0 % 2 == 0);
            if a.len() + b.len() != exp.len() {
                return ne("partition", &(a.len() + b.len()), &exp.len());
            }
        }
        8 => {
            // stopped in the middle, then resumed
            let n = exp.len() / (how as usize / 12 % 4 + 1);
            let mut got = Vec::new();
            let stop = it.try_for_each(|x| {
                got.push(pair(&x));
                if got.len() > n {
                    Err(())
                } else {
                    Ok(())
                }
            });
            if stop.is_err() != (exp.len() > n) {
                return Err(format!("try_for_each stopped: {}, with {} entries", stop.is_err(), exp.len()));
            }
            got.extend(it.by_ref().map(|x| pair(&x)));
            if got != exp {
                return ne("try_for_each", &got.len(), &exp.len());
            }
        }
        9 => {
            if let Some(k) = exp.get(how as usize / 12 % (exp.len() + 1)).map(|e| e.0) {
                let p = it.position(|x| pair(&x).0 == k);
                if p != exp.iter().position(|x| x.0 == k) {
                    return ne("position", &p, &k);
                }
                let rest = it.count();
                if rest != exp.len() - p.unwrap() - 1 {
                    return ne("count after position", &rest, &(exp.len() - p.unwrap() - 1));
                }
            } else if let Some(x) = it.find(|x| pair(x).0 == u32::MAX) {
                return ne("find", &pair(&x), &"nothing");
            }
        }
        10 => {
            let mut got = Vec::new();
            it.for_each(|x| got.push(pair(&x)));
            if got != exp {
                return ne("for_each", &got.len(), &exp.len());
            }
        }
        _ => {
            // used up, and then some
            let got: Vec<_> = it.by_ref().map(|x| pair(&x)).collect();
            if got != exp {
                return ne("collect", &got.len(), &exp.len());
            }
            if it.next().is_some() || it.size_hint().0 > 0 || it.nth(1).is_some() || it.count() > 0 {
                return Err("an exhausted iterator went on".into());
            }
        }
    }
    Ok(())
}
fn consume<T: Ord>(mut it: impl DoubleEndedIterator<Item = T>, pair: impl Fn(&T) -> (u32, u64) + Copy, how: u32, exp: &[(u32, u64)]) -> Result<(), String> {
    match how % 5 {
        0 => {
            let all = it.rfold(Vec::new(), |mut a, x| {
                a.push(pair(&x));
                a
            });
            if all.iter().rev().ne(exp) {
                return Err(format!("rfold saw {} entries, expected {}", all.len(), exp.len()));
            }
            Ok(())
        }
        1 => {
            let rev: Vec<_> = exp.iter().rev().copied().collect();
            consume_fwd(it.rev(), pair, how / 5, &rev)
        }
        2 => {
            // from the back up to some entry, the rest from the front
            let n = how as usize / 5 % (exp.len() + 1);
            let want = exp.iter().rev().nth(n).copied();
            let got = it.rfind(|x| Some(pair(x)) == want).map(|x| pair(&x));
            if got != want {
                return Err(format!("rfind is {:?}, expected {:?}", got, want));
            }
            consume_fwd(it, pair, how / 7, &exp[..exp.len().saturating_sub(n + 1)])
        }
        _ => consume_fwd(it, pair, how / 5, exp),
    }
}
