//! Commands: `check` (the parent of a campaign), `worker` (one lane of it), `exec` (one
//! scenario, for minimising), `replay` (one replay file), `gen` (print a scenario).
use crate::alloc;
use crate::combos::{self, METAS};
use crate::gen::{self, PROPS};
use crate::interp::{self, Report, Tool};
use crate::rng::mix;
use crate::scenario::{Scenario, CODES, NARG};
use crate::sched::Plan;
use crate::sys;
use crate::world::{self, fatal, w, FK_NAMES, NFK, NPROBE, PROBES};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Read;
use std::os::unix::io::AsRawFd;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// Lanes are fixed so that a run's build does not depend on the machine: run r belongs to
/// lane r % LANES, and lanes below DBG use the build with debug assertions.
const LANES: u64 = 8;
const DBG: u64 = 5;
const MEM: u64 = 2 << 30;
/// Properties with a second phase in the interpreter.
const INTERP: [&str; 3] = ["C04", "C09", "C11"];

fn build_of(run: u64) -> &'static str {
    if run % LANES < DBG {
        "dbg"
    } else {
        "rel"
    }
}

struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        let i = self.0.iter().position(|a| a == k)?;
        self.0.get(i + 1).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        match self.get(k) {
            None => d,
            Some(s) => s.parse().unwrap_or_else(|_| die(&format!("bad {}: {}", k, s))),
        }
    }
    fn need(&self, k: &str) -> &str {
        self.get(k).unwrap_or_else(|| die(&format!("missing {}", k)))
    }
}

fn die(m: &str) -> ! {
    eprintln!("palmsim: {}", m);
    std::process::exit(2)
}

pub fn main() -> i32 {
    let a = Args(std::env::args().skip(1).collect());
    match a.0.first().map(|s| s.as_str()) {
        Some("check") => check(&a),
        Some("worker") => worker(&a),
        Some("exec") => exec_cmd(&a),
        Some("replay") => replay(&a),
        Some("gen") => {
            let run = a.num("--run", 0);
            print!("{}", gen::gen(a.need("--prop"), build_of(run), a.num("--seed", 1), run).to_text());
            0
        }
        _ => die("usage: palmsim check|worker|exec|replay|gen ..."),
    }
}

// ---------------------------------------------------------------- worker

fn watchdog(limit_ms: u64) {
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    static UP: AtomicBool = AtomicBool::new(false);
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_millis(1));
        UP.store(true, SeqCst);
        let (mut seen, mut since) = (u64::MAX, 0u64);
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let now = sys::cpu_ms();
            let p = unsafe { std::ptr::read_volatile(&w().progress) };
            if p != seen {
                seen = p;
                since = now;
            } else if now - since > limit_ms {
                fatal("hang:step", "one step used all its CPU time without finishing");
            }
        }
    });
    // its start-up allocates and frees, which must not be counted against a run
    while !UP.load(SeqCst) {
        std::thread::yield_now();
    }
}

fn worker(a: &Args) -> i32 {
    let prop = a.need("--prop").to_string();
    let seed = a.num("--seed", 1);
    let lane = a.num("--lane", 0);
    let to = a.num("--to", 1);
    let repeat = a.num("--repeat", 0);
    let pos = std::fs::OpenOptions::new()
        .write(true)
        .create(true)
        .open(a.need("--pos"))
        .unwrap_or_else(|_| die("cannot open the position file"));
    let fd = pos.as_raw_fd();
    world::init();
    sys::limit_memory(MEM);
    watchdog(a.num("--hang", 15_000));
    let build = build_of(lane);
    let mut hists: HashSet<u64> = HashSet::new();
    let mut sigs: HashSet<u64> = HashSet::new();
    let (mut runs, mut nontrivial, mut faulty) = (0u64, 0u64, 0u64);
    let (mut yields, mut switches, mut ops) = (0u64, 0u64, 0u64);
    let (mut repeats, mut nondet) = (0u64, 0u64);
    let mut per_combo = vec![0u64; METAS.len()];
    let mut r = a.num("--from", lane);
    while r < to {
        sys::put_at(fd, &r.to_le_bytes(), 0);
        let sc = gen::gen(&prop, build, seed, r);
        let before: u64 = w().fired.iter().sum();
        let o = combos::exec(&sc, -1);
        if repeat > 0 && (runs + 1) % repeat == 0 {
            // the same scenario again must be the same execution
            repeats += 1;
            let o2 = combos::exec(&sc, -1);
            if o.hist != o2.hist || o.sched_sig != o2.sched_sig || o.yields != o2.yields || o.ops != o2.ops {
                nondet += 1;
            }
        }
        runs += 1;
        faulty += (w().fired.iter().sum::<u64>() > before) as u64;
        per_combo[sc.combo as usize] += 1;
        ops += o.ops;
        yields += o.yields;
        switches += o.switches;
        if o.ops >= 8 {
            nontrivial += 1;
            hists.insert(o.hist);
        }
        if sc.tasks > 1 {
            sigs.insert(o.sched_sig);
        }
        r += LANES;
    }
    sys::put_at(fd, &u64::MAX.to_le_bytes(), 0);
    let wd = w();
    let mut out = String::new();
    let _ = writeln!(
        out,
        "STAT runs={} nontrivial={} faulty={} ops={} yields={} switches={} callbacks={} maxlen={} allocs={} repeats={} nondet={}",
        runs, nontrivial, faulty, ops, yields, switches, wd.callbacks, wd.maxlen,
        alloc::TOTAL.load(std::sync::atomic::Ordering::Relaxed), repeats, nondet
    );
    for (i, n) in wd.ops.iter().enumerate() {
        let _ = writeln!(out, "OP {} {}", CODES[i].1, n);
    }
    for i in 1..NFK {
        let _ = writeln!(out, "FAULT {} {}", FK_NAMES[i], wd.fired[i]);
    }
    for i in 0..NPROBE {
        let _ = writeln!(out, "PROBE {} {}", PROBES[i], wd.probes[i]);
    }
    for (i, n) in per_combo.iter().enumerate() {
        let _ = writeln!(out, "COMBO {} {}", i, n);
    }
    let mut bin: Vec<u8> = Vec::new();
    for set in [&hists, &sigs, &wd.states] {
        bin.extend((set.len() as u64).to_le_bytes());
        for h in set.iter() {
            bin.extend(h.to_le_bytes());
        }
    }
    let _ = std::fs::write(format!("{}.sets", a.need("--pos")), bin);
    sys::write_all(1, out.as_bytes());
    sys::exit_now(0)
}

fn exec_cmd(a: &Args) -> i32 {
    let t = std::fs::read_to_string(a.need("--file")).unwrap_or_else(|_| die("cannot read the scenario"));
    let sc = Scenario::parse(&t).unwrap_or_else(|e| die(&e));
    world::init();
    sys::limit_memory(MEM);
    watchdog(a.num("--hang", 15_000));
    let trace = if a.get("--trace") == Some("1") { 1 } else { -1 };
    for i in (1..=sc.warm).rev() {
        if sc.run >= i * LANES {
            let r = sc.run - i * LANES;
            combos::exec(&gen::gen(&sc.prop, build_of(r), sc.seed, r), -1);
        }
    }
    let o = combos::exec(&sc, trace);
    println!("OK\t{:016x}\t{:016x}\t{} ops {} yields {} switches", o.hist, o.sched_sig, o.ops, o.yields, o.switches);
    0
}

// ---------------------------------------------------------------- parent

struct Env {
    dbg: PathBuf,
    rel: PathBuf,
    tmp: PathBuf,
}
impl Env {
    fn new(a: &Args) -> Env {
        let tmp = std::env::temp_dir().join(format!("palmsim.{}", std::process::id()));
        std::fs::create_dir_all(&tmp).unwrap_or_else(|_| die("no scratch directory"));
        Env { dbg: a.need("--dbg").into(), rel: a.need("--rel").into(), tmp }
    }
    fn exe(&self, build: &str) -> &Path {
        if build == "dbg" {
            &self.dbg
        } else {
            &self.rel
        }
    }
}
impl Drop for Env {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.tmp);
    }
}

#[derive(Clone, Debug)]
struct Fail {
    run: u64,
    class: String,
    msg: String,
}

fn parse_fail(out: &str) -> Option<Fail> {
    let l = out.lines().find(|l| l.starts_with("FAIL\t"))?;
    let f: Vec<&str> = l.splitn(4, '\t').collect();
    Some(Fail {
        run: f.get(1)?.parse().ok()?,
        class: f.get(2)?.to_string(),
        msg: f.get(3).unwrap_or(&"").to_string(),
    })
}

/// How a child ended, as a failure or not.
fn verdict(st: std::process::ExitStatus, out: &str, run: u64) -> Option<Fail> {
    if let Some(f) = parse_fail(out) {
        return Some(f);
    }
    if let Some(s) = st.signal() {
        return Some(Fail { run, class: format!("crash:signal-{}", s), msg: "the process was killed by a signal".into() });
    }
    match st.code() {
        Some(0) => None,
        c => Some(Fail { run, class: "harness:exit".into(), msg: format!("exit code {:?}", c) }),
    }
}

/// Two failures count as the same one when minimising.
fn family(class: &str) -> &str {
    if class.starts_with("memory:") || class.starts_with("crash:") {
        "memory"
    } else {
        class
    }
}

struct Lane {
    child: Child,
    rd: std::thread::JoinHandle<String>,
    pos: PathBuf,
    done: bool,
    killed: bool,
    seen: (u64, Instant),
}

fn read_pos(p: &Path) -> u64 {
    std::fs::read(p).ok().and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))).unwrap_or(0)
}

#[derive(Default)]
struct Stats {
    stat: BTreeMap<String, u64>,
    ops: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    combos: BTreeMap<u64, u64>,
    sets: [HashSet<u64>; 3],
}
impl Stats {
    fn add(&mut self, out: &str) {
        for l in out.lines() {
            let f: Vec<&str> = l.split_whitespace().collect();
            let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            match f.first() {
                Some(&"STAT") => {
                    for kv in &f[1..] {
                        if let Some((k, v)) = kv.split_once('=') {
                            let v: u64 = v.parse().unwrap_or(0);
                            let e = self.stat.entry(k.into()).or_default();
                            if k == "maxlen" {
                                *e = (*e).max(v);
                            } else {
                                *e += v;
                            }
                        }
                    }
                }
                Some(&"OP") => *self.ops.entry(f[1].into()).or_default() += n(2),
                Some(&"FAULT") => *self.faults.entry(f[1].into()).or_default() += n(2),
                Some(&"PROBE") => *self.probes.entry(f[1].into()).or_default() += n(2),
                Some(&"COMBO") => *self.combos.entry(n(1)).or_default() += n(2),
                _ => {}
            }
        }
    }
    fn add_sets(&mut self, p: &Path) {
        let Ok(b) = std::fs::read(p) else { return };
        let mut it = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap()));
        for s in self.sets.iter_mut() {
            let n = it.next().unwrap_or(0);
            for _ in 0..n {
                if let Some(x) = it.next() {
                    s.insert(x);
                }
            }
        }
    }
    fn get(&self, k: &str) -> u64 {
        self.stat.get(k).copied().unwrap_or(0)
    }
}

fn runs_of(prop: &str, tier: &str) -> u64 {
    let quick = match prop {
        "C09" => 24_000,
        "C04" | "C11" => 80_000,
        _ => 48_000,
    };
    if tier == "quick" {
        quick
    } else {
        quick * 12
    }
}

fn check(a: &Args) -> i32 {
    let t0 = Instant::now();
    let prop = a.need("--prop").to_string();
    if !PROPS.contains(&prop.as_str()) {
        die("unknown property");
    }
    let tier = a.get("--tier").unwrap_or("quick").to_string();
    let seed = a.num("--seed", 1);
    let to = a.num("--runs", runs_of(&prop, &tier));
    let wall = Duration::from_secs(a.num("--wall", if tier == "quick" { 300 } else if INTERP.contains(&prop.as_str()) { 400 } else { 560 }));
    let dir = PathBuf::from(a.need("--out"));
    let env = Env::new(a);
    sys::no_aslr();

    let mut lanes: Vec<Lane> = Vec::new();
    for lane in 0..LANES {
        let pos = env.tmp.join(format!("lane{}", lane));
        let _ = std::fs::write(&pos, 0u64.to_le_bytes());
        let mut child = Command::new(env.exe(build_of(lane)))
            .args(["worker", "--prop", &prop, "--seed", &seed.to_string(), "--lane", &lane.to_string()])
            .args(["--to", &to.to_string(), "--pos", pos.to_str().unwrap(), "--repeat", "64"])
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| die(&format!("cannot start a worker: {}", e)));
        let mut so = child.stdout.take().unwrap();
        let rd = std::thread::spawn(move || {
            let mut b = Vec::new();
            let _ = so.read_to_end(&mut b);
            String::from_utf8_lossy(&b).into_owned()
        });
        lanes.push(Lane { child, rd, pos, done: false, killed: false, seen: (u64::MAX, Instant::now()) });
    }
    let mut best: Option<Fail> = None;
    let mut stats = Stats::default();
    let mut cut = false;
    let mut aborted_runs = 0u64;
    loop {
        let mut live = 0;
        for (li, l) in lanes.iter_mut().enumerate() {
            if l.done {
                continue;
            }
            let p = read_pos(&l.pos);
            if l.seen.0 != p {
                l.seen = (p, Instant::now());
            }
            let over = t0.elapsed() > wall;
            let stuck = l.seen.1.elapsed() > Duration::from_secs(200);
            if over || stuck || best.as_ref().is_some_and(|b| p != u64::MAX && p > b.run) {
                let _ = l.child.kill();
                l.killed = true;
                cut |= over;
            }
            match l.child.try_wait() {
                Ok(Some(st)) => {
                    l.done = true;
                    let rd = std::mem::replace(&mut l.rd, std::thread::spawn(String::new));
                    let out = rd.join().unwrap_or_default();
                    let p = read_pos(&l.pos);
                    if l.killed {
                        aborted_runs += p / LANES;
                        if stuck && !over && p != u64::MAX && !best.as_ref().is_some_and(|b| p > b.run) {
                            let f = Fail { run: p, class: "hang:stuck".into(), msg: "no progress for 200 s".into() };
                            if !best.as_ref().is_some_and(|b| b.run < f.run) {
                                best = Some(f);
                            }
                        }
                    } else if let Some(f) = verdict(st, &out, p) {
                        aborted_runs += f.run / LANES + 1;
                        if !best.as_ref().is_some_and(|b| b.run < f.run) {
                            best = Some(f);
                        }
                    } else {
                        stats.add(&out);
                        stats.add_sets(&l.pos.with_file_name(format!("lane{}.sets", li)));
                    }
                }
                _ => live += 1,
            }
        }
        if live == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(15));
    }
    let hunt_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut violation = None;
    if let Some(f) = &best {
        if f.class.starts_with("harness:") {
            eprintln!("palmsim: internal error in run {}: {} {}", f.run, f.class, f.msg);
            code = 2;
        } else {
            let (path, m, repeats) = report(&env, &dir, &prop, seed, f);
            if f.class == "crash:signal-9" && !repeats {
                eprintln!("palmsim: a worker was killed from outside in run {}", f.run);
                code = 2;
            } else {
                println!("{}: {} ({})", prop, m.class, m.msg);
                println!("VIOLATION property={} replay={}", prop, path.display());
                violation = Some((path, m));
                code = 1;
            }
        }
    } else if stats.get("nondet") > 0 {
        eprintln!("palmsim: internal error: {} repeated runs differed", stats.get("nondet"));
        code = 2;
    }
    let mut rep = Report::default();
    if code == 0 && INTERP.contains(&prop.as_str()) {
        let limit = Duration::from_secs(a.num("--interp", if tier == "quick" { 90 } else { 170 }));
        let tool = Tool::find(&dir.join("sim"));
        rep = interp::campaign(tool.as_ref(), &dir, &prop, seed, limit, a.num("--interp-runs", u64::MAX));
        if let Some((path, class, msg, run)) = &rep.found {
            println!("{}: {} ({})", prop, class, msg);
            println!("VIOLATION property={} replay={}", prop, path.display());
            violation = Some((path.clone(), Fail { run: *run, class: class.clone(), msg: msg.clone() }));
            code = 1;
        }
    }
    let ev = evidence(&prop, &tier, seed, to, &stats, aborted_runs, cut, hunt_s, t0.elapsed().as_secs_f64(), &violation, &rep);
    let _ = std::fs::create_dir_all(dir.join("evidence"));
    if std::fs::write(dir.join("evidence").join(format!("{}.json", prop)), ev).is_err() {
        die("cannot write the evidence file");
    }
    if code == 0 {
        println!(
            "{}: held on {} runs ({} distinct), {} ops, {} faults, {:.0} s{}",
            prop,
            stats.get("runs"),
            stats.sets[0].len(),
            stats.get("ops"),
            stats.faults.values().sum::<u64>(),
            hunt_s,
            match (INTERP.contains(&prop.as_str()), rep.available) {
                (false, _) => String::new(),
                (true, false) => "; the interpreter is not available".into(),
                _ => format!("; {} runs in the interpreter, {:.0} s", rep.runs, rep.secs),
            }
        );
    }
    code
}

// ---------------------------------------------------------------- minimising

struct Shr<'a> {
    env: &'a Env,
    fam: String,
    hang: u64,
    t0: Instant,
    execs: u64,
    last: Fail,
}

impl Shr<'_> {
    fn spent(&self) -> bool {
        self.t0.elapsed() > Duration::from_secs(150) || self.execs > 4000
    }
    fn start(&self, sc: &Scenario, tag: usize, trace: bool) -> Child {
        let f = self.env.tmp.join(format!("cand{}", tag));
        let _ = std::fs::write(&f, sc.to_text());
        Command::new(self.env.exe(&sc.build))
            .args(["exec", "--file", f.to_str().unwrap(), "--hang", &self.hang.to_string()])
            .args(["--trace", if trace { "1" } else { "0" }])
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| die(&format!("cannot start a child: {}", e)))
    }
    fn finish(&self, c: Child, run: u64) -> (Option<Fail>, String) {
        match c.wait_with_output() {
            Ok(o) => {
                let out = String::from_utf8_lossy(&o.stdout).into_owned();
                (verdict(o.status, &out, run), out)
            }
            Err(_) => (None, String::new()),
        }
    }
    fn same(&self, f: &Fail) -> bool {
        !f.class.starts_with("harness:") && (self.fam == "any" || family(&f.class) == self.fam)
    }
    /// Execute once, whatever has been spent.
    fn first_now(&mut self, sc: &Scenario) -> Option<()> {
        let c = self.start(sc, 0, false);
        let f = self.finish(c, 0).0?;
        if self.same(&f) {
            self.last = f;
            return Some(());
        }
        None
    }
    /// The index of the first candidate that still fails the same way.
    fn first(&mut self, cands: &[Scenario]) -> Option<usize> {
        let mut i = 0;
        while i < cands.len() {
            if self.spent() {
                return None;
            }
            let n = (cands.len() - i).min(8);
            let ch: Vec<Child> = (0..n).map(|j| self.start(&cands[i + j], j, false)).collect();
            self.execs += n as u64;
            let mut hit = None;
            for (j, c) in ch.into_iter().enumerate() {
                let (f, _) = self.finish(c, 0);
                if let Some(f) = f {
                    if hit.is_none() && self.same(&f) {
                        hit = Some(i + j);
                        self.last = f;
                    }
                }
            }
            if hit.is_some() {
                return hit;
            }
            i += n;
        }
        None
    }
    fn ops(&mut self, mut sc: Scenario) -> Scenario {
        // everything after the failing op is irrelevant
        let mut chunk = (sc.ops.len() / 2).max(1);
        let mut cuts: Vec<Scenario> = Vec::new();
        let n = sc.ops.len();
        for k in 1..=8 {
            let mut c = sc.clone();
            c.ops.truncate(n * k / 8);
            cuts.push(c);
        }
        if let Some(i) = self.first(&cuts) {
            sc = cuts.swap_remove(i);
        }
        loop {
            let mut start = 0;
            let mut any = false;
            while start < sc.ops.len() {
                if self.spent() {
                    return sc;
                }
                let mut cands = Vec::new();
                let mut starts = Vec::new();
                let mut s = start;
                while s < sc.ops.len() && cands.len() < 8 {
                    let e = (s + chunk).min(sc.ops.len());
                    let mut c = sc.clone();
                    c.ops.drain(s..e);
                    cands.push(c);
                    starts.push(s);
                    s = e;
                }
                match self.first(&cands) {
                    Some(i) => {
                        sc = cands.swap_remove(i);
                        start = starts[i];
                        any = true;
                    }
                    None => start = s,
                }
            }
            if chunk == 1 {
                if !any {
                    return sc;
                }
            } else {
                chunk = (chunk / 2).max(1);
            }
        }
    }
    fn args(&mut self, mut sc: Scenario) -> Scenario {
        for i in 0..sc.ops.len() {
            if self.spent() {
                return sc;
            }
            if sc.ops[i].fault.is_some() {
                let mut c = sc.clone();
                c.ops[i].fault = None;
                if self.first(&[c.clone()]).is_some() {
                    sc = c;
                }
            }
            for j in 0..NARG {
                let v = sc.ops[i].a[j];
                if v == 0 {
                    continue;
                }
                let mut vals = vec![0, 1, v / 4, v / 2, v - v / 4, v - v / 16, v - 1];
                vals.dedup();
                vals.retain(|x| *x < v);
                loop {
                    if self.spent() {
                        return sc;
                    }
                    let cands: Vec<Scenario> = vals
                        .iter()
                        .map(|x| {
                            let mut c = sc.clone();
                            c.ops[i].a[j] = *x;
                            c
                        })
                        .collect();
                    match self.first(&cands) {
                        Some(k) => {
                            sc = cands[k].clone();
                            let v = vals[k];
                            vals = vec![v / 4, v / 2, v - v / 4, v - v / 16, v.saturating_sub(1)];
                            vals.dedup();
                            vals.retain(|x| *x < v);
                            if vals.is_empty() {
                                break;
                            }
                        }
                        None => break,
                    }
                }
            }
        }
        sc
    }
    fn explicit(&mut self, sc: &Scenario) -> Option<Scenario> {
        let c = self.start(sc, 9, true);
        let (_, out) = self.finish(c, 0);
        let mut v = Vec::new();
        for l in out.lines() {
            let f: Vec<&str> = l.split_whitespace().collect();
            if f.len() == 3 && f[0] == "sw" {
                v.push((f[1].parse().ok()?, f[2].parse().ok()?));
            }
        }
        let mut e = sc.clone();
        e.plan = Plan::Explicit(v);
        self.first(&[e.clone()])?;
        Some(e)
    }
    fn switches(&mut self, mut sc: Scenario) -> Scenario {
        let len = |s: &Scenario| if let Plan::Explicit(v) = &s.plan { v.len() } else { 0 };
        let mut chunk = len(&sc).max(1);
        loop {
            let mut start = 0;
            let mut any = false;
            while start < len(&sc) {
                if self.spent() {
                    return sc;
                }
                let (mut cands, mut starts) = (Vec::new(), Vec::new());
                let mut s = start;
                while s < len(&sc) && cands.len() < 8 {
                    let e = (s + chunk).min(len(&sc));
                    let mut c = sc.clone();
                    if let Plan::Explicit(v) = &mut c.plan {
                        v.drain(s..e);
                    }
                    cands.push(c);
                    starts.push(s);
                    s = e;
                }
                match self.first(&cands) {
                    Some(i) => {
                        sc = cands.swap_remove(i);
                        start = starts[i];
                        any = true;
                    }
                    None => start = s,
                }
            }
            if chunk == 1 {
                if !any {
                    return sc;
                }
            } else {
                chunk = (chunk / 2).max(1);
            }
        }
    }
}

/// Minimise, write the replay file, and make sure that it reproduces the failure.
fn report(env: &Env, dir: &Path, prop: &str, seed: u64, f: &Fail) -> (PathBuf, Fail, bool) {
    let orig = gen::gen(prop, build_of(f.run), seed, f.run);
    let hang = if f.class.starts_with("hang") { 3_000 } else { 15_000 };
    let mut fam = family(&f.class).to_string();
    if fam == "hang:stuck" {
        fam = "hang:step".into();
    }
    let mut s = Shr { env, fam, hang, t0: Instant::now(), execs: 0, last: f.clone() };
    let mut sc = orig.clone();
    let mut ok = s.first(&[orig.clone()]).is_some();
    // The failure may depend on what earlier runs of the process left in memory.
    let mut warm = 1;
    while !ok && !s.spent() && f.run >= LANES {
        sc.warm = warm.min(f.run / LANES);
        ok = s.first(&[sc.clone()]).is_some();
        if sc.warm < warm {
            break;
        }
        warm *= 2;
    }
    // Or on nothing that can be repeated but the kind of failure.
    if !ok && s.fam != "any" && !s.spent() {
        s.fam = "any".into();
        sc.warm = 0;
        ok = s.first(&[sc.clone()]).is_some();
    }
    if ok {
        let start = sc.clone();
        sc = s.ops(sc);
        sc = s.args(sc);
        sc = s.ops(sc);
        if sc.tasks > 1 {
            if let Some(e) = s.explicit(&sc) {
                sc = s.switches(e);
                let mut one = sc.clone();
                one.plan = Plan::Explicit(vec![]);
                let t = one.ops.first().map(|o| o.task).unwrap_or(0);
                if one.ops.iter().all(|o| o.task == t) {
                    one.tasks = 1;
                    one.ops.iter_mut().for_each(|o| o.task = 0);
                    if s.first(&[one.clone()]).is_some() {
                        sc = one;
                    }
                }
                sc = s.ops(sc);
            }
        }
        // the last word is the file's own execution
        let keep = s.last.clone();
        if s.first_now(&sc).is_none() {
            sc = start;
            if s.first_now(&sc).is_none() {
                s.last = keep;
            }
        }
    } else {
        sc.warm = 0;
        s.last.msg.push_str(" [seen in the campaign; the run alone did not repeat it]");
    }
    let last = Fail { run: f.run, ..s.last.clone() };
    let _ = std::fs::create_dir_all(dir.join("replays"));
    let path = dir.join("replays").join(format!("{}-{}-{}.sim", prop, seed, f.run));
    let mut t = sc.to_text();
    let head = format!("class {}\nmessage {}\n", last.class, last.msg);
    t.insert_str(t.find('\n').unwrap_or(0) + 1, &head);
    if std::fs::write(&path, t).is_err() {
        die("cannot write the replay file");
    }
    eprintln!(
        "palmsim: run {} seed {} build {}: {} of {} ops left after {} executions, {:.0} s",
        f.run, seed, sc.build, sc.ops.len(), orig.ops.len(), s.execs, s.t0.elapsed().as_secs_f64()
    );
    (path, last, ok)
}

fn replay(a: &Args) -> i32 {
    let file = a.need("--file");
    let t = std::fs::read_to_string(file).unwrap_or_else(|_| die("cannot read the replay file"));
    if t.starts_with("palmsim-interp") {
        return interp::replay(Tool::find(Path::new(a.need("--sim"))).as_ref(), file, &t);
    }
    let sc = Scenario::parse(&t).unwrap_or_else(|e| die(&e));
    let class = t.lines().find_map(|l| l.strip_prefix("class ")).unwrap_or("?").to_string();
    let env = Env::new(a);
    sys::no_aslr();
    let s = Shr { env: &env, fam: String::new(), hang: 20_000, t0: Instant::now(), execs: 0, last: Fail { run: 0, class: String::new(), msg: String::new() } };
    let c = s.start(&sc, 0, false);
    match s.finish(c, sc.run) {
        (Some(f), _) => {
            println!("{}: {} ({})", sc.prop, f.class, f.msg);
            if f.class != class {
                println!("note: the file recorded {}", class);
            }
            println!("VIOLATION property={} replay={}", sc.prop, file);
            1
        }
        (None, out) => {
            println!("not reproduced: {}", out.trim());
            0
        }
    }
}

// ---------------------------------------------------------------- evidence

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap<K: std::fmt::Display>(m: impl Iterator<Item = (K, u64)>) -> String {
    let v: Vec<String> = m.map(|(k, n)| format!("{}: {}", js(&k.to_string()), n)).collect();
    format!("{{{}}}", v.join(", "))
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    prop: &str,
    tier: &str,
    seed: u64,
    to: u64,
    st: &Stats,
    aborted: u64,
    cut: bool,
    hunt_s: f64,
    wall_s: f64,
    viol: &Option<(PathBuf, Fail)>,
    rep: &Report,
) -> String {
    let runs = st.get("runs") + aborted;
    let samples: Vec<String> = (0..4u64)
        .map(|i| {
            let run = if viol.is_some() && i == 0 { viol.as_ref().unwrap().1.run } else { mix(seed ^ i) % to.max(1) };
            let sc = gen::gen(prop, build_of(run), seed, run);
            let t = sc.to_text();
            let head: String = t.lines().take(24).collect::<Vec<_>>().join("; ");
            js(&format!("run {} on {} ({} ops, {} with faults): {}; ...", run, METAS[sc.combo as usize].name, sc.ops.len(), sc.ops.iter().filter(|o| o.fault.is_some()).count(), head))
        })
        .collect();
    let mut o = String::new();
    let _ = write!(o, "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n", js(prop), js(tier), seed);
    let _ = write!(o, " \"wall_s\": {:.2}, \"violations\": {},\n \"coverage\": {{\n", wall_s, viol.is_some() as u32);
    let _ = write!(o, "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", runs, st.sets[0].len());
    let _ = write!(
        o,
        "  \"rule\": {},\n",
        js("A run is one seeded scenario: configuration, operations per task, fault points and schedule, all derived from (property, seed, run number). It counts as non-trivial when at least 8 operations were executed, and as distinct by the hash of its whole history (every operation, its result and its faults).")
    );
    let _ = write!(o, "  \"samples\": [\n   {}\n  ],\n", samples.join(",\n   "));
    let _ = write!(o, "  \"runs_planned\": {}, \"stopped_by_wall_clock\": {}, \"runs_cut_short\": {},\n", to, cut, aborted);
    let _ = write!(o, "  \"seeds_per_hour\": {},\n", (runs as f64 / hunt_s.max(0.01) * 3600.0) as u64);
    let _ = write!(
        o,
        "  \"simulated_time\": {{\"unit\": {}, \"operations\": {}, \"callbacks\": {}, \"allocations\": {}}},\n",
        js("the code under test has no clock; time passes in operations and in callbacks to keys, values, nodes and streams"),
        st.get("ops"), st.get("callbacks"), st.get("allocs")
    );
    let _ = write!(
        o,
        "  \"faults_injected\": {},\n  \"runs_with_faults\": {},\n",
        jmap(st.faults.iter().map(|(k, v)| (k, *v))), st.get("faulty")
    );
    let _ = write!(
        o,
        "  \"distinct_states\": {{\"measure\": {}, \"count\": {}}},\n",
        js("hash of (configuration, contents of the handle's model, what happened to it) sampled after operations"), st.sets[2].len()
    );
    let _ = write!(
        o,
        "  \"interleavings\": {{\"measure\": {}, \"distinct\": {}, \"yield_points\": {}, \"preemptions\": {}}},\n",
        js("hash of the sequence of task switches (yield point, task)"), st.sets[1].len(), st.get("yields"), st.get("switches")
    );
    let _ = write!(o, "  \"operations\": {},\n", jmap(st.ops.iter().map(|(k, v)| (k, *v))));
    let _ = write!(o, "  \"rare_conditions\": {},\n", jmap(st.probes.iter().map(|(k, v)| (k, *v))));
    let _ = write!(o, "  \"determinism\": {{\"runs_repeated\": {}, \"differed\": {}}},\n", st.get("repeats"), st.get("nondet"));
    let _ = write!(o, "  \"largest_tree\": {},\n", st.get("maxlen"));
    let _ = write!(
        o,
        "  \"configurations\": {},\n",
        jmap(st.combos.iter().map(|(k, v)| (METAS[*k as usize].name, *v)))
    );
    if INTERP.contains(&prop) {
        let _ = write!(
            o,
            "  \"interpreter\": {{\"available\": {}, \"runs\": {}, \"seeds_per_hour\": {}, \"operations\": {}, \"threads\": {}, \"threads_killed\": {}, \"callbacks\": {}, \"distinct_interleavings_or_histories\": {}, \"preemption_rates\": {}, \"modes\": {}, \"gave_no_answer\": {}, \"reasons\": {}}},\n",
            rep.available,
            rep.runs,
            (rep.runs as f64 / rep.secs.max(0.01) * 3600.0) as u64,
            rep.ops,
            rep.threads,
            rep.died,
            rep.callbacks,
            rep.sigs.len(),
            jmap(rep.preempt.iter().map(|(k, v)| (k, *v))),
            jmap(rep.modes.iter().map(|(k, v)| (k, *v))),
            rep.no_answer,
            jmap(rep.why.iter().map(|(k, v)| (k, *v)))
        );
    }
    let _ = write!(
        o,
        "  \"real_code\": {},\n  \"stubs\": {},\n  \"builds\": {}\n",
        js("all of palmtree (trees, entries, iterators, merge, load, pointer kinds Unique, Shared, SyncShared), the standard library, real OS threads under the baton scheduler"),
        js("keys, values, input streams, the node-allocating pointer kind of the SimPtr configurations, the global allocator (a checking wrapper around the system one) and the task scheduler are the simulator's"),
        js("lanes 0-4 of 8 ran a build with debug assertions and overflow checks, lanes 5-7 one without")
    );
    let _ = write!(o, " }},\n \"assumptions\": [{}]\n}}\n", js(if INTERP.contains(&prop) && rep.available {
        "In the compiled campaign, preemption happens only at callbacks, allocations of simulated nodes and between operations, and memory is sequentially consistent. The interpreted runs preempt between any two basic blocks and emulate weak memory, on small trees; Miri's model of the language is taken as correct (aliasing rules and value validity are not checked)."
    } else {
        "Preemption happens only at callbacks, allocations of simulated nodes and between operations; memory-ordering effects weaker than sequential consistency are not explored."
    }));
    o
}
