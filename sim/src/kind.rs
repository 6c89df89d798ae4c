//! A simulated pointer kind: reference counted like `Shared`, but every call is checked
//! (the node is live, and is used as the type it was stored as), every call is a point
//! where another task may run, and allocation may fail by panicking.
use crate::world::{ctx, fatal, tick, w, FK};
use palmtree::PointerKind;
use std::ptr::NonNull;

#[repr(C, align(64))]
struct Hdr {
    magic: u64,
    rc: usize,
    name: &'static str,
}
#[repr(C)]
struct Node<A> {
    h: Hdr,
    a: A,
}
const LIVE: u64 = 0x4E4F_4445_4C49_5645;
const DEAD: u64 = 0x4E4F_4445_4445_4144;
const OFF: usize = 64;

pub struct Sim {
    h: NonNull<Hdr>,
}

impl Sim {
    #[inline]
    unsafe fn hdr<A>(&self) -> &mut Hdr {
        let h = &mut *self.h.as_ptr();
        if h.magic != LIVE {
            fatal("memory:node-after-free", "a tree node was used after it was freed");
        }
        let n = std::any::type_name::<A>();
        if h.name.as_ptr() != n.as_ptr() && h.name != n {
            fatal("memory:type-confusion", &format!("a node stored as {} was used as {}", short(h.name), short(n)));
        }
        h
    }
    #[inline]
    unsafe fn data<A>(&self) -> *mut A {
        debug_assert!(std::mem::align_of::<A>() <= OFF);
        (self.h.as_ptr() as *mut u8).add(OFF) as *mut A
    }
}
fn short(n: &str) -> String {
    n.split('<').next().unwrap_or(n).rsplit("::").next().unwrap_or(n).to_string()
}

impl PointerKind for Sim {
    unsafe fn new<A>(value: A) -> Self {
        tick(FK::Alloc);
        let b = Box::new(Node {
            h: Hdr { magic: LIVE, rc: 1, name: std::any::type_name::<A>() },
            a: value,
        });
        w().nodes += 1;
        w().news += 1;
        ctx().made += 1;
        Sim { h: NonNull::new_unchecked(Box::into_raw(b) as *mut Hdr) }
    }
    unsafe fn into_raw<A>(self) -> NonNull<A> {
        NonNull::new_unchecked(self.data::<A>())
    }
    unsafe fn from_raw<A>(ptr: NonNull<A>) -> Self {
        Sim { h: NonNull::new_unchecked((ptr.as_ptr() as *mut u8).sub(OFF) as *mut Hdr) }
    }
    unsafe fn deref<A>(&self) -> &A {
        if w().sched_on {
            tick(FK::None);
        }
        ctx().visits += 1;
        self.hdr::<A>();
        &*self.data::<A>()
    }
    unsafe fn make_mut<A: Clone>(&mut self) -> &mut A {
        if w().sched_on {
            tick(FK::None);
        }
        if self.hdr::<A>().rc > 1 {
            let copy = Self::new::<A>((*self.data::<A>()).clone());
            let old = Sim { h: self.h };
            *self = copy;
            release::<A>(old);
        }
        ctx().visits += 1;
        self.hdr::<A>();
        &mut *self.data::<A>()
    }
    unsafe fn drop_ptr<A>(&mut self) {
        release::<A>(Sim { h: self.h })
    }
    unsafe fn clone<A: Clone>(&self) -> Self {
        if w().sched_on {
            tick(FK::None);
        }
        self.hdr::<A>().rc += 1;
        Sim { h: self.h }
    }
}
unsafe fn release<A>(p: Sim) {
    let h = p.hdr::<A>();
    h.rc -= 1;
    if h.rc == 0 {
        h.magic = DEAD;
        w().nodes -= 1;
        drop(Box::from_raw(p.h.as_ptr() as *mut Node<A>));
    }
}
