//! From (property, seed, run) to one scenario. Everything about a run is decided here, or by
//! the scheduler from the seed this puts into the scenario.
use crate::combos::METAS;
use crate::rng::{mix, Rng};
use crate::scenario::{Code, Op, Scenario};
use crate::sched::Plan;
use crate::world::{FK, MAXT};
use Code::*;

pub const PROPS: [&str; 14] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C15", "C16",
];

#[derive(Clone, Copy, PartialEq)]
enum Mv {
    Single,
    Build,
    Gap,
    Drain,
    Diverge,
    Cursor,
    Owned,
    Whole,
    Looks,
    Hot,
    Task,
}

struct Prof {
    combos: &'static [u32],
    moves: &'static [(Mv, u32)],
    /// per mille of runs with faults
    faulty: u32,
    /// per mille of ops with a fault, in those runs
    rate: u32,
    kinds: &'static [FK],
    retry: u32,
    /// ops that matter most here
    fav: &'static [(Code, u32)],
    size: [u32; 4],
}

const ALLC: &[u32] = &[0, 0, 1, 1, 2, 3, 4, 4, 5, 6, 7, 8, 9, 9, 10, 11, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23];
const COWC: &[u32] = &[4, 4, 5, 6, 7, 8, 9, 9, 10, 11, 11, 12, 13, 19, 20, 21, 22, 23, 0, 3];
const PANICS: &[FK] = &[FK::Cmp, FK::Cmp, FK::CloneK, FK::CloneK, FK::CloneV, FK::Src, FK::Alloc, FK::Alloc];
const ALLF: &[FK] = &[
    FK::Cmp, FK::Cmp, FK::CloneK, FK::CloneK, FK::CloneV, FK::DropK, FK::DropK, FK::DropV, FK::Src, FK::Alloc, FK::Alloc,
];

fn prof(p: &str) -> Prof {
    use Mv::*;
    let d = Prof {
        combos: ALLC,
        moves: &[(Single, 60), (Build, 6), (Gap, 10), (Drain, 3), (Diverge, 4), (Cursor, 4), (Owned, 1), (Whole, 3), (Looks, 2), (Hot, 6)],
        faulty: 300,
        rate: 30,
        kinds: PANICS,
        retry: 500,
        fav: &[],
        size: [60, 25, 10, 5],
    };
    match p {
        "C01" => Prof {
            fav: &[(Insert, 14), (Remove, 12), (Entry, 10), (InsRec, 6), (RmLow, 3), (RmHigh, 3), (Get, 4), (Index, 1), (GetLin, 2)],
            ..d
        },
        "C02" => Prof {
            moves: &[(Single, 50), (Build, 6), (Gap, 14), (Drain, 3), (Diverge, 5), (Cursor, 24), (Hot, 3)],
            fav: &[(Range, 30), (RangeMut, 14), (Remove, 8), (OpenIter, 6), (Step, 10), (CloneIter, 5)],
            faulty: 250,
            ..d
        },
        "C03" => Prof {
            combos: COWC,
            moves: &[(Single, 40), (Build, 5), (Gap, 8), (Drain, 2), (Diverge, 34), (Cursor, 8), (Owned, 4), (Whole, 4), (Looks, 1), (Hot, 2)],
            faulty: 400,
            rate: 100,
            kinds: ALLF,
            fav: &[(Clone, 14), (GetMut, 5), (RangeMut, 6), (IntoIter, 3), (Append, 2)],
            ..d
        },
        "C04" => Prof {
            moves: &[(Single, 55), (Build, 5), (Gap, 10), (Drain, 4), (Diverge, 8), (Cursor, 8), (Owned, 8), (Whole, 8), (Looks, 1), (Hot, 4)],
            faulty: 650,
            rate: 250,
            kinds: ALLF,
            retry: 300,
            fav: &[(Drop, 3), (Close, 6), (IntoIter, 4), (OpenOwned, 4), (Merge, 2), (Append, 2)],
            ..d
        },
        "C05" => Prof {
            moves: &[(Single, 60), (Build, 6), (Gap, 12), (Drain, 3), (Diverge, 6), (Whole, 6), (Cursor, 4), (Hot, 6)],
            faulty: 1000,
            rate: 450,
            retry: 700,
            fav: &[(Insert, 24), (InsRec, 12), (Entry, 14), (Remove, 10), (Extend, 8), (Append, 4), (GetMut, 3), (RmLow, 3), (RmHigh, 3)],
            ..d
        },
        "C06" => Prof {
            moves: &[(Single, 40), (Build, 14), (Gap, 14), (Drain, 3), (Diverge, 6), (Owned, 34), (Whole, 3)],
            faulty: 300,
            rate: 60,
            fav: &[(IntoIter, 16), (OpenOwned, 10), (Step, 10), (Clone, 6), (Remove, 6)],
            ..d
        },
        "C07" => Prof {
            moves: &[(Single, 40), (Build, 16), (Gap, 6), (Diverge, 4), (Whole, 34), (Cursor, 1)],
            faulty: 350,
            rate: 150,
            fav: &[
                (Load, 14), (LoadBad, 8), (FromIter, 8), (FromBt, 4), (Merge, 14), (MergeLazy, 8), (MergeStream, 8),
                (Append, 14), (Extend, 12), (Remove, 6),
            ],
            ..d
        },
        "C08" => Prof {
            moves: &[(Single, 40), (Build, 8), (Gap, 10), (Drain, 3), (Diverge, 12), (Looks, 30), (Whole, 4)],
            faulty: 200,
            rate: 50,
            fav: &[(Compare, 14), (Rebuild, 20), (Clone, 6), (Remove, 8)],
            ..d
        },
        "C09" => Prof {
            combos: &[7, 8, 9, 9, 10, 11, 11, 12, 20, 21],
            moves: &[(Single, 40), (Build, 4), (Gap, 8), (Diverge, 8), (Cursor, 6), (Owned, 3), (Whole, 3), (Hot, 3), (Task, 40)],
            faulty: 400,
            rate: 80,
            kinds: ALLF,
            fav: &[],
            size: [70, 25, 5, 0],
            ..d
        },
        "C10" => Prof {
            moves: &[(Single, 50), (Build, 10), (Gap, 20), (Drain, 8), (Diverge, 3), (Cursor, 6), (Owned, 4), (Whole, 6), (Looks, 2), (Hot, 2)],
            faulty: 250,
            rate: 60,
            size: [30, 30, 28, 12],
            fav: &[(Extend, 4), (RmLow, 6), (RmHigh, 6), (Range, 8)],
            ..d
        },
        "C11" => Prof {
            moves: &[(Single, 60), (Build, 6), (Gap, 8), (Drain, 3), (Diverge, 5), (Cursor, 10), (Owned, 5), (Whole, 5), (Looks, 1), (Hot, 4)],
            faulty: 1000,
            rate: 500,
            kinds: &[FK::Lie],
            retry: 100,
            fav: &[(RangeMut, 12), (Range, 8), (OpenMut, 5), (Entry, 8), (Extend, 3), (FromIter, 3)],
            ..d
        },
        "C15" => Prof {
            combos: COWC,
            moves: &[(Single, 40), (Build, 6), (Gap, 8), (Drain, 1), (Diverge, 30), (Cursor, 10), (Owned, 6), (Whole, 5), (Looks, 3), (Hot, 2)],
            faulty: 250,
            rate: 60,
            fav: &[(Clone, 14), (GetMut, 6), (RangeMut, 6), (IntoIter, 4), (Append, 2), (Get, 4), (Range, 6), (Compare, 3)],
            ..d
        },
        "C16" => Prof {
            moves: &[(Single, 50), (Build, 12), (Gap, 26), (Drain, 14), (Diverge, 6), (Cursor, 2), (Owned, 6), (Whole, 6), (Hot, 4)],
            combos: &[11, 11, 12, 12, 21, 21, 0, 1, 2, 3, 4, 5, 6, 7, 9, 13, 17, 18, 22],
            faulty: 250,
            rate: 40,
            fav: &[(Remove, 12), (RmLow, 4), (RmHigh, 4), (Clone, 4), (Drop, 6), (Entry, 4)],
            size: [50, 30, 15, 5],
            ..d
        },
        _ => Prof {
            // C12
            moves: &[(Single, 50), (Build, 6), (Gap, 12), (Drain, 2), (Diverge, 14), (Cursor, 22), (Hot, 6)],
            faulty: 200,
            rate: 60,
            fav: &[(GetMut, 14), (IndexMut, 8), (RangeMut, 18), (Entry, 16), (OpenMut, 8), (UseHeld, 8), (OpenEntry, 6), (Close, 6), (Step, 8)],
            ..d
        },
    }
}

const BASE: &[(Code, u32)] = &[
    (Get, 6), (GetLin, 2), (GetMut, 4), (Index, 1), (IndexMut, 1), (Insert, 14), (InsRec, 4), (Remove, 10), (RmLow, 2),
    (RmHigh, 2), (Entry, 8), (Range, 6), (RangeMut, 4), (Step, 5), (Close, 3), (CloneIter, 1), (UseHeld, 1), (OpenIter, 2),
    (OpenMut, 2), (OpenEntry, 2), (OpenOwned, 1), (IntoIter, 1), (Clone, 3), (Drop, 1), (New, 1), (Merge, 1), (MergeLazy, 1),
    (MergeStream, 1), (Append, 1), (Extend, 1), (Compare, 1), (Rebuild, 1), (FromIter, 1), (FromBt, 1), (Load, 1), (LoadBad, 1), (Pointers, 1),
];

struct G<'a> {
    r: Rng,
    p: &'a Prof,
    ops: Vec<Op>,
    singles: Vec<(Code, u32)>,
    b: u32,
    l: u32,
    uni: u32,
    bulk: u32,
    slots: u32,
    tasks: u32,
    task: u8,
    faulty: bool,
    rate: u32,
    kinds: Vec<FK>,
    ends: bool,
    start: u32,
    stride: u32,
    last: u32,
    hot: [u32; 3],
    focus: u32,
    fill: u32,
}

fn weighted<T: Copy>(r: &mut Rng, xs: &[(T, u32)]) -> T {
    let sum: u32 = xs.iter().map(|x| x.1).sum();
    let mut i = r.u32(sum.max(1));
    for (x, w) in xs {
        if i < *w {
            return *x;
        }
        i -= w;
    }
    xs[0].0
}

impl G<'_> {
    fn slot(&mut self) -> u32 {
        if self.r.permille(500) {
            self.focus
        } else {
            self.r.u32(self.slots)
        }
    }
    fn other(&mut self, s: u32) -> u32 {
        (s + 1 + self.r.u32(3)) % 4
    }
    /// a key: mostly where something happened or is about to
    fn key(&mut self) -> u32 {
        let k = match self.r.u32(20) {
            0..=6 => self.r.u32(self.uni),
            7..=9 => self.hot[self.r.u32(3) as usize],
            10..=13 => (self.last + self.r.u32(7)).saturating_sub(3),
            14..=16 => {
                // at the edge of a leaf or a branch of a loaded tree
                let unit = match self.r.u32(5) {
                    0 | 1 => self.l,
                    2 => self.l * self.b,
                    3 => self.l / 2,
                    _ => (self.l * self.b * self.b).min(self.uni),
                }
                .max(1);
                let i = self.r.u32((self.bulk / unit).max(1) + 1);
                let e = self.start + i * unit * self.stride;
                (e + self.r.u32(2 * self.stride + 2)).saturating_sub(self.stride + 1)
            }
            17 => self.start + self.r.u32(self.bulk.max(1)) * self.stride,
            18 => self.r.u32(2),
            _ => self.uni + self.r.u32(6),
        };
        self.last = k;
        k
    }
    fn emit(&mut self, code: Code, a: [u32; 6]) {
        let mut op = Op { task: self.task, code, a, fault: None };
        if self.faulty && !matches!(code, New | Check | Close | UseHeld | Send | Recv) && self.r.permille(self.rate) {
            let mut k = *self.r.pick(&self.kinds);
            if self.ends && matches!(code, Insert | InsRec | InsRun) && self.r.permille(120) {
                k = FK::DropK;
            }
            let n = match (k, code) {
                (FK::Lie, _) => self.r.u32(64),
                (_, Load | FromIter | InsRun | RemRun | Extend | Merge | MergeLazy | Append | IntoIter | Range | RangeMut | MergeStream) => {
                    self.r.logu(400)
                }
                (FK::Cmp, _) => self.r.logu(24),
                (FK::Alloc, _) => self.r.logu(8),
                (FK::Src, _) => self.r.logu(30),
                _ => self.r.logu(20),
            };
            op.fault = Some((k, n));
            if self.tasks > 1 && self.r.permille(150) {
                op.a[5] |= 1;
            } else if self.tasks > 1 {
                op.a[5] &= !1;
            }
            let retry = self.r.permille(self.p.retry);
            self.ops.push(op.clone());
            if retry {
                op.fault = None;
                self.ops.push(op);
            }
        } else {
            self.ops.push(op);
        }
    }
    fn span(&mut self) -> (u32, u32, u32, u32) {
        let (mut lo, mut hi) = (self.key(), self.key());
        if self.r.permille(150) {
            hi = lo;
        } else if lo > hi && !self.r.permille(40) {
            std::mem::swap(&mut lo, &mut hi);
        }
        if self.r.permille(200) {
            hi = lo + self.r.u32(12);
        }
        let kind = |r: &mut Rng| weighted(r, &[(0u32, 4), (1, 3), (2, 3)]);
        let (kl, kh) = (kind(&mut self.r), kind(&mut self.r));
        (lo, hi, kl, kh)
    }
    fn pat(&mut self) -> u32 {
        self.r.next() as u32
    }
    fn bulk_n(&mut self) -> u32 {
        let (l, b) = (self.l, self.b);
        match self.r.u32(8) {
            0 => self.r.range(0, 3),
            1 => (l * self.r.range(1, 4) + self.r.u32(3)).saturating_sub(1),
            2 => (l * b * self.r.range(1, 3) + self.r.u32(3)).saturating_sub(1).min(self.bulk * 2 + 8),
            3 => (l * b * b + self.r.u32(3)).saturating_sub(1).min(self.bulk * 2 + 8),
            4 => self.r.logu(self.bulk.max(1)),
            _ => self.r.range(self.bulk / 2, self.bulk),
        }
    }
    fn build(&mut self, s: u32) {
        let n = self.bulk_n();
        self.stride = *self.r.pick(&[1, 1, 2, 2, 3, 5]);
        self.start = if self.r.permille(700) { 0 } else { self.r.u32(self.uni) };
        let (start, stride) = (self.start, self.stride);
        match self.r.u32(10) {
            0..=4 => {
                let h = self.r.u32(5);
                self.emit(Load, [s, n, start, stride, h, 0])
            }
            5 => self.emit(FromBt, [s, n, start, stride, 0, 0]),
            6 => {
                let seed = self.pat();
                self.emit(FromIter, [s, n, seed, self.uni, 1, 0])
            }
            _ => {
                let how = self.r.u32(3);
                let desc = self.r.u32(2);
                if self.r.permille(500) {
                    self.emit(New, [s, 0, 0, 0, 0, 0]);
                }
                self.emit(InsRun, [s, start, n.min(3000), stride, how, desc])
            }
        }
    }
    /// Remove a cluster, usually whole leaves or branches, then work around the hole.
    fn gap(&mut self, s: u32) {
        let unit = match self.r.u32(6) {
            0 | 1 => self.l,
            2 => self.l / 2,
            3 => self.l * self.b,
            4 => self.l * self.b / 2,
            _ => 1 + self.r.u32(6),
        }
        .max(1);
        let cnt = self.bulk / unit;
        let i = match self.r.u32(4) {
            0 => 0,
            1 => cnt.saturating_sub(1),
            _ => self.r.u32(cnt.max(1)),
        };
        let n = (unit * self.r.range(1, 3)).min(self.bulk + 4);
        let n = if self.r.permille(300) { n.saturating_sub(1).max(1) } else { n };
        let from = (self.start + i * unit * self.stride + self.r.u32(3)).saturating_sub(self.r.u32(3));
        let dir = self.r.u32(2);
        self.emit(RemRun, [s, from, n, self.stride, dir, 0]);
        let hi = from + n * self.stride;
        for _ in 0..self.r.range(1, 5) {
            let k = match self.r.u32(6) {
                0 => from,
                1 => hi,
                2 => hi.saturating_sub(1),
                3 => hi.saturating_sub(self.stride),
                4 => from.saturating_sub(1),
                _ => from + self.r.u32((hi - from).max(1) + 2),
            };
            self.last = k;
            match self.r.u32(9) {
                0 | 1 => self.emit(Insert, [s, k, 0, 0, 0, 0]),
                2 => self.emit(InsRec, [s, k, 0, 0, 0, 0]),
                3 => {
                    let act = self.r.u32(8);
                    self.emit(Entry, [s, k, act, 0, 0, 0])
                }
                4 => self.emit(Remove, [s, k, 0, 0, 0, 0]),
                5 | 6 => {
                    let k2 = k + self.r.u32(2 * self.l * self.stride + 1);
                    let (kl, kh, pat) = (self.r.u32(3), self.r.u32(3), self.pat());
                    self.emit(Range, [s, k, k2, kl, kh, pat])
                }
                7 => {
                    let k2 = k + self.r.u32(2 * self.l * self.stride + 1);
                    let (kl, kh, pat) = (self.r.u32(3), self.r.u32(3), self.pat());
                    self.emit(RangeMut, [s, k, k2, kl, kh, pat])
                }
                _ => self.emit(Get, [s, k, 0, 0, 0, 0]),
            }
        }
    }
    /// An insertion of a new highest key, aborted by a destructor, and then the tree is consumed.
    fn end_after_abort(&mut self, s: u32) {
        let (code, n) = (*self.r.pick(&[Insert, InsRec]), self.r.u32(4));
        let k = self.uni + 8 + self.r.u32(1000);
        let (pat, how) = (self.r.u32(5), self.r.next() as u32);
        let op = |code, a, fault| Op { task: self.task, code, a, fault };
        let ops = [op(code, [s, k, 0, 0, 0, 0], Some((FK::DropK, n))), op(IntoIter, [s, pat, 0, how, 0, 0], None)];
        self.ops.extend(ops);
    }
    fn drain(&mut self, s: u32) {
        let n = self.bulk + 8;
        match self.r.u32(4) {
            0 => {
                let d = self.r.u32(2);
                self.emit(RemRun, [s, self.start, n, self.stride, d, 0])
            }
            1 => {
                let d = self.r.u32(2);
                self.emit(RemRun, [s, 0, (self.uni + 8).min(4000), 1, d, 0])
            }
            _ => {
                let low = self.r.u32(3);
                for i in 0..(n + 2).min(40) {
                    let c = match low {
                        0 => RmLow,
                        1 => RmHigh,
                        _ => {
                            if i % 2 == 0 {
                                RmLow
                            } else {
                                RmHigh
                            }
                        }
                    };
                    self.emit(c, [s, 0, 0, 0, 0, 0]);
                }
            }
        }
        let many = self.r.range(0, 6);
        for _ in 0..many {
            let k = self.key();
            let c = *self.r.pick(&[Insert, InsRec, Entry, Range, RmLow, RmHigh, Remove]);
            let (a2, a3) = (self.r.u32(8), self.r.u32(3));
            let pat = self.pat();
            self.emit(c, [s, k, if c == Range { k + a2 } else { a2 }, a3, a3, if c == Range { pat } else { 0 }]);
        }
    }
    fn diverge(&mut self, s: u32) {
        let d = self.other(s);
        self.emit(Clone, [s, d, 0, 0, 0, 0]);
        if self.r.permille(300) {
            let e = self.other(d);
            if e != s {
                self.emit(Clone, [d, e, 0, 0, 0, 0]);
            }
        }
        let (x, y) = if self.r.permille(500) { (s, d) } else { (d, s) };
        if self.r.permille(400) {
            let (lo, hi, kl, kh) = self.span();
            let c = *self.r.pick(&[OpenIter, OpenIter, OpenMut, OpenEntry]);
            self.emit(c, [y, lo, hi, kl, kh, 0]);
            let (n, pat) = (self.r.logu(8), self.pat());
            self.emit(Step, [y, n, pat, 0, 0, 0]);
        }
        for _ in 0..self.r.range(1, 5) {
            match self.r.u32(12) {
                0 | 1 => {
                    let k = self.key();
                    self.emit(Insert, [x, k, 0, 0, 0, 0])
                }
                2 => {
                    let k = self.key();
                    self.emit(InsRec, [x, k, 0, 0, 0, 0])
                }
                3 => {
                    let k = self.key();
                    self.emit(Remove, [x, k, 0, 0, 0, 0])
                }
                4 => {
                    let c = *self.r.pick(&[RmLow, RmHigh]);
                    self.emit(c, [x, 0, 0, 0, 0, 0])
                }
                5 => {
                    let k = self.key();
                    let c = *self.r.pick(&[GetMut, IndexMut]);
                    self.emit(c, [x, k, 1, 0, 0, 0])
                }
                6 => {
                    let (lo, hi, kl, kh) = self.span();
                    let pat = self.pat();
                    self.emit(RangeMut, [x, lo, hi, kl, kh, pat])
                }
                7 => {
                    let (k, act) = (self.key(), self.r.u32(8));
                    self.emit(Entry, [x, k, act, 0, 0, 0])
                }
                8 => {
                    let (pat, n) = (self.pat(), self.r.u32(6));
                    let how = self.pat();
                    self.emit(IntoIter, [x, pat, n, how, 0, 0])
                }
                9 => {
                    let c = *self.r.pick(&[Drop, Append, Extend]);
                    let o = self.other(x);
                    let (n, seed) = (self.r.logu(12), self.pat());
                    self.emit(c, if c == Append { [x, o, seed % 3, 0, 0, 0] } else { [x, o, n, seed, seed >> 8 & 7, self.uni] })
                }
                10 => self.gap(x),
                _ => {
                    let (n, pat) = (self.r.logu(6), self.pat());
                    self.emit(Step, [y, n, pat, 0, 0, 0])
                }
            }
        }
        let (n, pat) = (self.r.logu(30), self.pat());
        self.emit(Step, [y, n, pat, 0, 0, 0]);
    }
    fn cursor(&mut self, s: u32) {
        let (lo, hi, kl, kh) = self.span();
        match self.r.u32(6) {
            0 | 1 => self.emit(OpenIter, [s, lo, hi, kl, kh, 0]),
            2..=4 => self.emit(OpenMut, [s, lo, hi, kl, kh, 0]),
            _ => self.emit(OpenEntry, [s, lo, 0, 0, 0, 0]),
        }
        for _ in 0..self.r.range(1, 6) {
            match self.r.u32(8) {
                0..=3 => {
                    let (n, pat) = (self.r.logu(12), self.pat());
                    self.emit(Step, [s, n, pat, 0, 0, 0])
                }
                4 => {
                    let pat = self.pat();
                    self.emit(CloneIter, [s, pat, 0, 0, 0, 0])
                }
                5 => {
                    let x = self.pat();
                    self.emit(UseHeld, [s, x, 0, 0, 0, 0])
                }
                _ => {
                    let o = self.other(s);
                    if o < self.slots {
                        self.single_on(o)
                    }
                }
            }
        }
        let act = self.r.u32(512);
        if self.r.permille(600) {
            self.emit(Close, [s, act, 0, 0, 0, 0]);
        }
    }
    fn owned(&mut self, s: u32) {
        if self.r.permille(500) {
            let d = self.other(s);
            self.emit(Clone, [s, d, 0, 0, 0, 0]);
        }
        let i = self.r.u32(2);
        self.emit(OpenOwned, [s, i, 0, 0, 0, 0]);
        for _ in 0..self.r.range(0, 5) {
            if self.r.permille(700) {
                let (n, pat) = (self.r.logu(2 * self.l * self.b), self.pat());
                self.emit(Step, [i, n, pat, 1, 0, 0]);
            } else {
                self.single()
            }
        }
        if self.r.permille(300) {
            let pat = self.pat();
            self.emit(Step, [i, 1 << 20, pat, 1, 0, 0]);
        } else if self.r.permille(300) {
            let act = 0x30 | i << 6 | if self.r.permille(100) { 0x100 } else { 0 };
            self.emit(Close, [s, act, 0, 0, 0, 0]);
        }
    }
    fn whole(&mut self, s: u32) {
        let o = self.other(s);
        if self.r.permille(600) {
            let keep = (self.start, self.stride);
            self.build(o);
            if self.r.permille(400) {
                self.gap(o);
            }
            self.start = keep.0;
            self.stride = keep.1;
        }
        if self.r.permille(300) {
            let d = self.other(o);
            if d != s {
                let from = if self.r.permille(500) { s } else { o };
                self.emit(Clone, [from, d, 0, 0, 0, 0]);
            }
        }
        let (d, side) = (self.r.u32(4), self.r.u32(3));
        match self.r.u32(8) {
            0 | 1 => self.emit(Merge, [s, o, d, side, 0, 0]),
            2 => {
                let stop = if self.r.permille(500) { 0 } else { self.r.logu(self.bulk + 1) };
                let how = self.pat();
                self.emit(MergeLazy, [s, o, stop, side, how, 0])
            }
            3 | 4 => self.emit(Append, [s, o, side, 0, 0, 0]),
            5 => {
                let (n, m, x, y) = (self.r.logu(60), self.r.logu(60), self.pat(), self.pat());
                self.emit(MergeStream, [side, n, m, x, y, self.uni.min(80)])
            }
            _ => {
                let (n, seed, kind) = (self.r.logu(self.bulk + 20), self.pat(), self.r.u32(8));
                self.emit(Extend, [s, o, n, seed, kind, self.uni])
            }
        }
    }
    fn looks(&mut self, s: u32) {
        let o = self.other(s);
        match self.r.u32(5) {
            0 => {
                self.emit(Clone, [s, o, 0, 0, 0, 0]);
                if self.r.permille(500) {
                    let k = self.key();
                    let c = *self.r.pick(&[Insert, Remove, GetMut]);
                    self.emit(c, [o, k, 1, 0, 0, 0]);
                }
                let how = self.r.u32(32);
                self.emit(Compare, [s, o, how, 0, 0, 0]);
            }
            1 => {
                let how = self.r.u32(32);
                self.emit(Compare, [s, o, how, 0, 0, 0])
            }
            _ => {
                let (how, seed, ch, off) = (self.r.u32(6), self.pat(), self.r.u32(3), self.r.u32(3));
                self.emit(Rebuild, [s, how, seed, ch, off, 0])
            }
        }
    }
    /// Hammer one spot.
    fn hot(&mut self, s: u32) {
        let c = self.key();
        let w = *self.r.pick(&[2, self.l, 2 * self.l]);
        for _ in 0..self.r.range(4, 20) {
            let k = c + self.r.u32(w);
            let code = weighted(&mut self.r, &[(Insert, 8), (Remove, 7), (InsRec, 3), (Entry, 5), (Get, 2), (Range, 2)]);
            let (act, k2) = (self.r.u32(8), k + self.r.u32(w));
            let (x, y, pat) = (self.r.u32(3), self.r.u32(3), self.pat());
            if code == Range {
                self.emit(Range, [s, k, k2, x, y, pat]);
            } else {
                self.emit(code, [s, k, act, 0, 0, 0]);
            }
        }
    }
    fn task_move(&mut self) {
        let s = self.slot();
        let c = weighted(&mut self.r, &[(Send, 6), (Recv, 8), (Publish, 6), (Fetch, 8), (LockedUpdate, 9), (ShareRo, 3), (ReadRo, 8), (DropRo, 2)]);
        let k = self.key();
        let x = self.pat();
        let a = match c {
            Send => [s, x % self.tasks, x >> 8 & 1, x >> 9 & 7, 0, 0],
            Recv => [s, x & 1, 0, 0, 0, 0],
            LockedUpdate => [s, k, x & 3, x >> 4, 0, 0],
            ReadRo => [s, k, x % 200, x >> 8, 0, 0],
            _ => [s, 0, 0, 0, 0, 0],
        };
        self.emit(c, a);
    }
    fn single(&mut self) {
        let s = self.slot();
        self.single_on(s)
    }
    fn single_on(&mut self, s: u32) {
        let c = weighted(&mut self.r, &self.singles.clone());
        let k = self.key();
        let x = self.pat();
        let o = self.other(s);
        // growing and shrinking phases
        let c = match c {
            Remove if self.fill > 700 && x & 1 == 0 => Insert,
            Insert if self.fill < 300 && x & 1 == 0 => Remove,
            c => c,
        };
        let a = match c {
            Get | GetLin | Index | Insert | InsRec | Remove | OpenEntry => [s, k, 0, 0, 0, 0],
            GetMut | IndexMut => [s, k, x & 1, 0, 0, 0],
            Entry => [s, k, x & 7, 0, 0, 0],
            Range | RangeMut | OpenIter | OpenMut => {
                let (lo, hi, kl, kh) = self.span();
                [s, lo, hi, kl, kh, x]
            }
            Step => [s, 1 + (x >> 8) % 8, x, (x >> 3 & 7 == 0) as u32, 0, 0],
            IntoIter => [s, x, if x & 0x10 == 0 { 0 } else { x >> 8 & 31 }, self.r.next() as u32, 0, 0],
            Close => [s, x & 511, 0, 0, 0, 0],
            CloneIter | UseHeld => [s, x, 0, 0, 0, 0],
            Clone | Compare => [s, o, x & 31, 0, 0, 0],
            OpenOwned => [s, x & 1, 0, 0, 0, 0],
            Merge => [s, o, x & 3, x >> 2, 0, 0],
            MergeLazy => [s, o, if x & 4 == 0 { 0 } else { x >> 8 & 63 }, x >> 3 & 1, self.r.next() as u32, 0],
            MergeStream => [x & 1, x >> 1 & 31, x >> 6 & 31, x >> 11, x >> 13, 1 + (x >> 20 & 63)],
            Append => [s, o, x % 3, 0, 0, 0],
            Extend => [s, o, self.r.logu(self.bulk.min(300) + 8), x, x >> 8 & 7, self.uni],
            Pointers => [s, x, x >> 3 & 15, 0, 0, 0],
            Rebuild => [s, x % 6, x >> 4, x >> 8, x >> 10, 0],
            FromIter => [s, self.r.logu(self.bulk.min(300) + 8), x, self.uni, (x >> 8) % 5, 0],
            Load | FromBt => {
                let n = self.bulk_n().min(2000);
                [s, n, if x & 16 == 0 { 0 } else { k }, 1 + (x >> 8) % 3, x % 5, 0]
            }
            LoadBad => [s, 2 + self.r.logu(self.bulk.min(500) + 4), 0, 1 + (x >> 8) % 3, x >> 12, x & 7],
            New => [s, x & 1, 0, 0, 0, 0],
            _ => [s, 0, 0, 0, 0, 0],
        };
        self.emit(c, a);
    }
}

pub fn gen(prop: &str, build: &str, seed: u64, run: u64) -> Scenario {
    let p = prof(prop);
    let tag = prop.bytes().fold(0u64, |h, b| mix(h ^ b as u64));
    let mut r = Rng::new(mix(seed) ^ mix(run.wrapping_mul(0x9E37_79B9)) ^ tag);
    let mut combo = *r.pick(p.combos);
    if cfg!(miri) {
        // the interpreter is too slow for big nodes
        while METAS[combo as usize].b > 8 || METAS[combo as usize].l > 8 {
            combo = *r.pick(p.combos);
        }
    }
    let meta = &METAS[combo as usize];
    let (b, l) = (meta.b as u32, meta.l as u32);
    let small = b <= 8 && l <= 8;
    let size = weighted(&mut r, &[(0u32, p.size[0]), (1, p.size[1]), (2, p.size[2]), (3, p.size[3])]);
    let size = if cfg!(miri) { 0 } else { size };
    let (uni, bulk, nops) = match size {
        0 if cfg!(miri) => {
            let u = r.range(5, 30);
            (u, u, r.range(8, 30))
        }
        0 => {
            let u = r.range(5, 40);
            (u, u, r.range(15, 160))
        }
        1 => {
            let u = r.range(60, 700);
            (u, u / r.range(1, 3), r.range(40, 260))
        }
        2 => {
            let u = if small { r.range(500, 5000) } else { r.range(1500, 9000) };
            (u, u / r.range(1, 3), r.range(30, 120))
        }
        _ => {
            let u = if small { r.range(3000, 12000) } else { r.range(9000, 24000) };
            (u, u / r.range(1, 2), r.range(20, 60))
        }
    };
    // which ops exist in this run, and how often (swarm)
    let mut singles: Vec<(Code, u32)> = BASE.to_vec();
    for (c, wt) in p.fav {
        match singles.iter_mut().find(|x| x.0 == *c) {
            Some(x) => x.1 += wt,
            None => singles.push((*c, *wt)),
        }
    }
    for x in singles.iter_mut() {
        let keep = matches!(x.0, Insert | Remove) || p.fav.iter().any(|f| f.0 == x.0);
        match r.u32(8) {
            0 | 1 if !keep => x.1 = 0,
            2 => x.1 *= 3,
            _ => {}
        }
    }
    let mut moves: Vec<(Mv, u32)> = p.moves.to_vec();
    for m in moves.iter_mut() {
        if m.0 != Mv::Single && r.permille(200) {
            m.1 = 0;
        }
    }
    let faulty = r.permille(p.faulty);
    let mut kinds: Vec<FK> = p.kinds.to_vec();
    if faulty && r.permille(300) {
        let k = *r.pick(&kinds);
        kinds = vec![k];
    }
    if meta.name.starts_with("SimPtr") {
        // node allocation can fail only here
        kinds.push(FK::Alloc);
        if p.kinds == [FK::Lie] {
            kinds = vec![FK::Lie];
        }
    }
    let tasks = if prop == "C09" { r.range(2, MAXT as u32 - 1) } else { 1 };
    let rate = [p.rate / 3 + 1, p.rate, p.rate, (p.rate * 2).min(800)][r.u32(4) as usize];
    let slots = *r.pick(&[1u32, 2, 2, 3, 4, 4]);
    let lie_seed = r.next();
    let plan = Plan::Random { seed: r.next(), p: *r.pick(&[4, 20, 60, 150, 400]) };
    let mut g = G {
        p: &p,
        ops: Vec::with_capacity(nops as usize * 2),
        singles,
        b,
        l,
        uni,
        bulk,
        slots,
        tasks,
        task: 0,
        faulty,
        rate,
        kinds,
        ends: prop == "C10",
        start: 0,
        stride: 1,
        last: 0,
        hot: [r.u32(uni), r.u32(uni), r.u32(uni)],
        focus: 0,
        fill: r.u32(1000),
        r,
    };
    // and a wide one, loaded
    let wide = [3u32, 6, 8].iter().copied().filter(|c| p.combos.contains(c)).collect::<Vec<_>>();
    let giant2 = prop != "C09" && !wide.is_empty() && run % 4096 == 1038;
    let wide = if giant2 { wide[(run / 4096 + seed) as usize % wide.len()] } else { 0 };
    let giant = (prop == "C10" || prop == "C01") && run % 4096 == 37;
    // once for each way to insert, in the lanes without debug assertions
    let tall = !cfg!(miri) && prop == "C10" && run < 96_000 && matches!(run % 48_000, 2005..=2007);
    if tall {
        g.faulty = false;
        let n = (if run < 48_000 { 1 << 23 } else { 1 << 24 }) + g.r.u32(1 << 20);
        let (desc, gap) = (g.r.u32(2), 16 << g.r.u32(3));
        g.emit(Tall, [0, n, gap, run as u32 % 3, desc, 0]);
        g.uni = n;
        g.bulk = n;
        for _ in 0..30 {
            g.single_on(0);
        }
    } else if giant {
        // a tree far taller than any test builds: nothing may refuse to grow
        g.faulty = false;
        let n = 450_000 + g.r.u32(100_000);
        let how = g.r.u32(3);
        g.emit(InsRun, [0, 0, n, 2, how, 0]);
        g.uni = 2 * n;
        g.bulk = 2000;
        for _ in 0..30 {
            g.single_on(0);
        }
    } else if giant2 {
        g.faulty &= !matches!(prop, "C01" | "C10");
        let n = 280_000 + g.r.u32(60_000);
        g.emit(Load, [0, n, 0, 2, 1, 0]);
        g.uni = 2 * n;
        g.bulk = n;
        g.stride = 2;
        for i in 0..24 {
            let s = g.slot();
            match i % 6 {
                5 => g.gap(0),
                2 => match g.r.u32(5) {
                    0 => g.diverge(s),
                    1 => g.cursor(0),
                    2 => g.owned(s),
                    3 => g.looks(s),
                    _ => g.drain(0),
                },
                _ => g.single_on(s),
            }
        }
    } else {
        if g.r.permille(800) {
            g.build(0);
        }
        while g.ops.len() < nops as usize {
            if tasks > 1 {
                g.task = g.r.u32(tasks) as u8;
            }
            if g.r.permille(40) {
                g.fill = g.r.u32(1000);
                g.focus = g.r.u32(slots);
            }
            if g.r.permille(60) {
                let i = g.r.u32(3) as usize;
                g.hot[i] = g.r.u32(uni);
            }
            let m = weighted(&mut g.r, &moves);
            let s = g.slot();
            if g.ends && g.faulty && g.r.permille(20) {
                g.end_after_abort(s);
            }
            match m {
                Mv::Single => g.single(),
                Mv::Build => g.build(s),
                Mv::Gap => g.gap(s),
                Mv::Drain => g.drain(s),
                Mv::Diverge => g.diverge(s),
                Mv::Cursor => g.cursor(s),
                Mv::Owned => g.owned(s),
                Mv::Whole => g.whole(s),
                Mv::Looks => g.looks(s),
                Mv::Hot => g.hot(s),
                Mv::Task => {
                    for _ in 0..g.r.range(1, 4) {
                        g.task_move()
                    }
                }
            }
        }
    }
    let ops = g.ops;
    Scenario {
        prop: prop.into(),
        build: build.into(),
        combo: if tall {
            19
        } else if giant {
            0
        } else if giant2 {
            wide
        } else {
            combo
        },
        seed,
        run,
        warm: 0,
        budgets: prop == "C10",
        tasks,
        lie_seed,
        plan,
        ops,
    }
}
