//! A scenario is one complete simulated execution written out: configuration, operations
//! per task, fault points, and either a schedule seed or the explicit list of switches.
use crate::sched::Plan;
use crate::world::FK;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
#[repr(u8)]
pub enum Code {
    New, Load, LoadBad, FromIter, FromBt, Clone, Drop,
    Get, GetLin, GetMut, Index, IndexMut, Insert, InsRec, Remove, RmLow, RmHigh, Entry,
    InsRun, RemRun,
    Range, RangeMut, IntoIter,
    OpenIter, OpenMut, OpenEntry, OpenOwned, Step, CloneIter, Close, UseHeld,
    Merge, MergeLazy, MergeStream, Append, Extend, Compare, Rebuild, Check, Pointers, Tall,
    // between tasks
    Send, Recv, Publish, Fetch, LockedUpdate, ShareRo, ReadRo, DropRo,
}
use Code::*;
pub const CODES: [(Code, &str); 49] = [
    (New, "new"), (Load, "load"), (LoadBad, "loadbad"), (FromIter, "fromiter"), (FromBt, "frombt"),
    (Clone, "clone"), (Drop, "drop"), (Get, "get"), (GetLin, "getlin"), (GetMut, "getmut"),
    (Index, "index"), (IndexMut, "indexmut"), (Insert, "insert"), (InsRec, "insrec"),
    (Remove, "remove"), (RmLow, "rmlow"), (RmHigh, "rmhigh"), (Entry, "entry"),
    (InsRun, "insrun"), (RemRun, "remrun"), (Range, "range"), (RangeMut, "rangemut"),
    (IntoIter, "intoiter"), (OpenIter, "openiter"), (OpenMut, "openmut"), (OpenEntry, "openentry"),
    (OpenOwned, "openowned"), (Step, "step"), (CloneIter, "cloneiter"), (Close, "close"),
    (UseHeld, "useheld"), (Merge, "merge"), (MergeLazy, "mergelazy"), (MergeStream, "mergestream"),
    (Append, "append"), (Extend, "extend"), (Compare, "compare"), (Rebuild, "rebuild"), (Check, "check"),
    (Pointers, "pointers"), (Tall, "tall"),
    (Send, "send"), (Recv, "recv"), (Publish, "publish"), (Fetch, "fetch"),
    (LockedUpdate, "lockedupdate"), (ShareRo, "sharero"), (ReadRo, "readro"), (DropRo, "dropro"),
];
pub const NCODE: usize = CODES.len();
impl Code {
    pub fn name(self) -> &'static str {
        CODES[self as usize].1
    }
    pub fn parse(s: &str) -> Option<Code> {
        CODES.iter().find(|c| c.1 == s).map(|c| c.0)
    }
}

pub const NARG: usize = 6;

#[derive(Clone, PartialEq, Debug)]
pub struct Op {
    pub task: u8,
    pub code: Code,
    pub a: [u32; NARG],
    /// fault kind and at which callback of that kind it strikes (for Lie: the mode)
    pub fault: Option<(FK, u32)>,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Scenario {
    pub prop: String,
    pub build: String,
    pub combo: u32,
    pub seed: u64,
    pub run: u64,
    /// how many earlier runs of the lane to execute first (0, unless the failure depends on
    /// what they left in memory)
    pub warm: u64,
    pub budgets: bool,
    pub tasks: u32,
    pub lie_seed: u64,
    pub plan: Plan,
    pub ops: Vec<Op>,
}

impl Scenario {
    pub fn to_text(&self) -> String {
        use std::fmt::Write;
        let mut o = String::new();
        let _ = writeln!(o, "palmsim-scenario 1");
        let _ = writeln!(o, "prop {}", self.prop);
        let _ = writeln!(o, "build {}", self.build);
        let _ = writeln!(o, "origin {} {}", self.seed, self.run);
        let _ = writeln!(o, "combo {}", self.combo);
        let _ = writeln!(o, "warm {}", self.warm);
        let _ = writeln!(o, "budgets {}", self.budgets as u32);
        let _ = writeln!(o, "tasks {}", self.tasks);
        let _ = writeln!(o, "lieseed {}", self.lie_seed);
        match &self.plan {
            Plan::Random { seed, p } => {
                let _ = writeln!(o, "sched random {} {}", seed, p);
            }
            Plan::Explicit(v) => {
                let _ = writeln!(o, "sched explicit");
                for (y, t) in v {
                    let _ = writeln!(o, "sw {} {}", y, t);
                }
            }
        }
        for op in &self.ops {
            let _ = write!(o, "op {} {}", op.task, op.code.name());
            for x in op.a {
                let _ = write!(o, " {}", x);
            }
            if let Some((k, n)) = op.fault {
                let _ = write!(o, " fault {} {}", crate::world::FK_NAMES[k as usize], n);
            }
            let _ = writeln!(o);
        }
        o
    }
    pub fn parse(t: &str) -> Result<Scenario, String> {
        let mut s = Scenario {
            prop: String::new(),
            build: "dbg".into(),
            combo: 0,
            seed: 0,
            run: 0,
            warm: 0,
            budgets: false,
            tasks: 1,
            lie_seed: 0,
            plan: Plan::Explicit(vec![]),
            ops: vec![],
        };
        let bad = |l: &str| format!("bad line: {}", l);
        for l in t.lines() {
            let f: Vec<&str> = l.split_whitespace().collect();
            if f.is_empty() || f[0].starts_with('#') {
                continue;
            }
            let num = |i: usize| -> Result<u64, String> {
                f.get(i).and_then(|x| x.parse().ok()).ok_or_else(|| bad(l))
            };
            match f[0] {
                "palmsim-scenario" | "class" | "message" => {}
                "prop" => s.prop = f.get(1).ok_or_else(|| bad(l))?.to_string(),
                "build" => s.build = f.get(1).ok_or_else(|| bad(l))?.to_string(),
                "origin" => {
                    s.seed = num(1)?;
                    s.run = num(2)?;
                }
                "combo" => s.combo = num(1)? as u32,
                "warm" => s.warm = num(1)?,
                "budgets" => s.budgets = num(1)? != 0,
                "tasks" => s.tasks = num(1)? as u32,
                "lieseed" => s.lie_seed = num(1)?,
                "sched" => {
                    s.plan = if f.get(1) == Some(&"random") {
                        Plan::Random { seed: num(2)?, p: num(3)? as u32 }
                    } else {
                        Plan::Explicit(vec![])
                    }
                }
                "sw" => {
                    if let Plan::Explicit(v) = &mut s.plan {
                        v.push((num(1)?, num(2)? as u8));
                    }
                }
                "op" => {
                    let mut a = [0u32; NARG];
                    for (i, x) in a.iter_mut().enumerate() {
                        *x = num(3 + i)? as u32;
                    }
                    let code = f.get(2).and_then(|c| Code::parse(c)).ok_or_else(|| bad(l))?;
                    let fault = if f.get(3 + NARG) == Some(&"fault") {
                        let k = f.get(4 + NARG).and_then(|k| FK::parse(k)).ok_or_else(|| bad(l))?;
                        Some((k, num(5 + NARG)? as u32))
                    } else {
                        None
                    };
                    s.ops.push(Op { task: num(1)? as u8, code, a, fault });
                }
                _ => return Err(bad(l)),
            }
        }
        Ok(s)
    }
}
