//! Simulated keys and values. Every comparison, clone and drop goes through the world,
//! which checks that the object is live, counts, switches tasks and injects faults.
use crate::world::{self, tick, FK, LIVE_K, LIVE_V};
use palmtree::{PalmTree, TreeConfig};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt;
use std::hash::{Hash, Hasher};

pub trait SimKey: Ord + Clone + Hash + fmt::Debug + 'static {
    const TRACKED: bool;
    fn mk(rank: u32) -> Self;
    fn rank(&self) -> u32;
}
pub trait SimVal: Ord + Clone + Hash + fmt::Debug + 'static {
    const PAYLOAD: bool;
    fn mk(p: u64) -> Self;
    fn get(&self) -> u64;
    fn set(&mut self, p: u64);
}

// ---- tracked key ----
pub struct Key {
    id: u32,
    rank: u32,
    magic: u32,
}
impl Key {
    #[inline]
    fn check(&self, what: &str) {
        world::check_obj(self.id, self.rank as u64, self.magic, LIVE_K, what)
    }
}
impl SimKey for Key {
    const TRACKED: bool = true;
    fn mk(rank: u32) -> Self {
        let id = world::birth(LIVE_K);
        Key { id, rank, magic: world::magic(id, rank as u64) }
    }
    fn rank(&self) -> u32 {
        self.check("read");
        self.rank
    }
}
impl Clone for Key {
    fn clone(&self) -> Self {
        self.check("clone");
        tick(FK::CloneK);
        self.check("clone");
        Key::mk(self.rank)
    }
}
impl Drop for Key {
    fn drop(&mut self) {
        world::death(self.id, self.rank as u64, self.magic, LIVE_K);
        tick(FK::DropK);
    }
}
impl Ord for Key {
    fn cmp(&self, o: &Self) -> Ordering {
        self.check("comparison");
        o.check("comparison");
        let r = world::compare(self.rank.cmp(&o.rank));
        self.check("comparison");
        o.check("comparison");
        r
    }
}

// ---- tracked value ----
pub struct Val {
    id: u32,
    magic: u32,
    p: u64,
}
impl Val {
    #[inline]
    fn check(&self, what: &str) {
        world::check_obj(self.id, self.p, self.magic, LIVE_V, what)
    }
}
impl SimVal for Val {
    const PAYLOAD: bool = true;
    fn mk(p: u64) -> Self {
        let id = world::birth(LIVE_V);
        Val { id, p, magic: world::magic(id, p) }
    }
    fn get(&self) -> u64 {
        self.check("read");
        self.p
    }
    fn set(&mut self, p: u64) {
        self.check("write");
        self.p = p;
        self.magic = world::magic(self.id, p);
    }
}
impl Clone for Val {
    fn clone(&self) -> Self {
        self.check("clone");
        tick(FK::CloneV);
        self.check("clone");
        Val::mk(self.p)
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        world::death(self.id, self.p, self.magic, LIVE_V);
        tick(FK::DropV);
    }
}

// ---- over-aligned key ----
#[repr(align(64))]
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct BigKey(Key);
impl SimKey for BigKey {
    const TRACKED: bool = true;
    fn mk(rank: u32) -> Self {
        BigKey(Key::mk(rank))
    }
    fn rank(&self) -> u32 {
        if self as *const _ as usize % 64 != 0 {
            world::fatal("memory:misaligned", "an over-aligned key was handed out at a misaligned address");
        }
        self.0.rank()
    }
}
impl fmt::Debug for BigKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

// ---- zero-sized value ----
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Zst;
impl SimVal for Zst {
    const PAYLOAD: bool = false;
    fn mk(_: u64) -> Self {
        Zst
    }
    fn get(&self) -> u64 {
        0
    }
    fn set(&mut self, _: u64) {}
}

// ---- Copy key and value (for the APIs that need them) ----
#[derive(Copy)]
pub struct CKey {
    rank: u32,
    magic: u32,
}
impl CKey {
    fn check(&self) {
        if self.magic != world::magic(7, self.rank as u64) {
            world::fatal("memory:garbage", "use of a garbage Copy key");
        }
    }
}
impl SimKey for CKey {
    const TRACKED: bool = false;
    fn mk(rank: u32) -> Self {
        CKey { rank, magic: world::magic(7, rank as u64) }
    }
    fn rank(&self) -> u32 {
        self.check();
        self.rank
    }
}
impl Clone for CKey {
    #[allow(clippy::non_canonical_clone_impl)]
    fn clone(&self) -> Self {
        self.check();
        tick(FK::CloneK);
        *self
    }
}
impl Ord for CKey {
    fn cmp(&self, o: &Self) -> Ordering {
        self.check();
        o.check();
        world::compare(self.rank.cmp(&o.rank))
    }
}
#[derive(Copy)]
pub struct CVal {
    p: u64,
    magic: u32,
}
impl SimVal for CVal {
    const PAYLOAD: bool = true;
    fn mk(p: u64) -> Self {
        CVal { p, magic: world::magic(8, p) }
    }
    fn get(&self) -> u64 {
        if self.magic != world::magic(8, self.p) {
            world::fatal("memory:garbage", "use of a garbage Copy value");
        }
        self.p
    }
    fn set(&mut self, p: u64) {
        let _ = self.get();
        *self = CVal::mk(p);
    }
}
impl Clone for CVal {
    #[allow(clippy::non_canonical_clone_impl)]
    fn clone(&self) -> Self {
        let _ = self.get();
        tick(FK::CloneV);
        *self
    }
}

macro_rules! key_common {
    ($t:ty) => {
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                self.cmp(o) == Ordering::Equal
            }
        }
        impl Eq for $t {}
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Hash for $t {
            fn hash<H: Hasher>(&self, h: &mut H) {
                SimKey::rank(self).hash(h)
            }
        }
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                SimKey::rank(self).fmt(f)
            }
        }
    };
}
macro_rules! val_common {
    ($t:ty) => {
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                self.get() == o.get()
            }
        }
        impl Eq for $t {}
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $t {
            fn cmp(&self, o: &Self) -> Ordering {
                self.get().cmp(&o.get())
            }
        }
        impl Hash for $t {
            fn hash<H: Hasher>(&self, h: &mut H) {
                self.get().hash(h)
            }
        }
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.get().fmt(f)
            }
        }
    };
}
key_common!(Key);
key_common!(CKey);
val_common!(Val);
val_common!(CVal);

// ---- over-aligned value ----
#[repr(align(64))]
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct BigVal(Val);
impl SimVal for BigVal {
    const PAYLOAD: bool = true;
    fn mk(p: u64) -> Self {
        BigVal(Val::mk(p))
    }
    fn get(&self) -> u64 {
        if self as *const _ as usize % 64 != 0 {
            world::fatal("memory:misaligned", "an over-aligned value was handed out at a misaligned address");
        }
        self.0.get()
    }
    fn set(&mut self, p: u64) {
        self.0.set(p)
    }
}
impl fmt::Debug for BigVal {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

// ---- a value that is only partially ordered and may differ from itself ----
#[derive(Clone, Debug)]
struct Odd(u64);
impl PartialEq for Odd {
    fn eq(&self, o: &Self) -> bool {
        self.0 != 0 && self.0 == o.0
    }
}
impl PartialOrd for Odd {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        if self.0 == 0 || o.0 == 0 {
            None
        } else {
            self.0.partial_cmp(&o.0)
        }
    }
}

/// Compare trees with such values to what comparing their entries in order gives.
pub fn odd_trees(m1: &BTreeMap<u32, u64>, m2: &BTreeMap<u32, u64>, how: u32) -> Result<(), String> {
    match how & 3 {
        0 => odd_as::<crate::combos::U44>(m1, m2, how),
        1 => odd_as::<crate::combos::S45>(m1, m2, how),
        2 => odd_as::<palmtree::Tree64<palmtree::Shared>>(m1, m2, how),
        _ => odd_as::<palmtree::Tree64<palmtree::Unique>>(m1, m2, how),
    }
}
fn odd_as<C: TreeConfig<u32, Odd>>(m1: &BTreeMap<u32, u64>, m2: &BTreeMap<u32, u64>, how: u32) -> Result<(), String> {
    // few odd values, or many
    let n = [2, 3, 40, 1000][how as usize >> 2 & 3];
    let items = |m: &BTreeMap<u32, u64>| -> Vec<(u32, Odd)> { m.iter().map(|(k, p)| (*k, Odd(p % n))).collect() };
    let (v1, v2) = (items(m1), items(m2));
    let a: PalmTree<u32, Odd, C> = PalmTree::load(v1.iter().cloned());
    let b: PalmTree<u32, Odd, C> = v2.iter().rev().cloned().collect();
    let c = a.clone();
    for (x, vx, y, vy) in [(&a, &v1, &b, &v2), (&b, &v2, &a, &v1), (&a, &v1, &c, &v1), (&a, &v1, &a, &v1)] {
        let eq = vx == vy;
        let o = vx.iter().partial_cmp(vy.iter());
        let got = (x == y, x != y, x.partial_cmp(y), x < y, x <= y, x > y, x >= y);
        use Ordering::*;
        let want = (eq, !eq, o, o == Some(Less), matches!(o, Some(Less | Equal)), o == Some(Greater), matches!(o, Some(Greater | Equal)));
        if got != want {
            return Err(format!("(==, !=, partial_cmp, <, <=, >, >=) are {:?}, expected {:?}", got, want));
        }
    }
    Ok(())
}
