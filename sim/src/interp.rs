//! The second simulator: single scenarios inside Miri, one process each. Miri interprets the
//! program; its seed decides every preemption (between any two basic blocks), which of the
//! allowed stores an atomic load sees, and every address, so that (program, arguments, seed)
//! is one exactly repeatable execution. It reports data races, reads of uninitialised or freed
//! memory and accesses outside a block, which the compiled campaign cannot see.
use crate::rng::mix;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const PARALLEL: usize = 8;
const ONE: Duration = Duration::from_secs(60);

/// Inside the interpreter: a scenario of the main simulator, at the size `gen` gives it there.
pub fn scenario(prop: &str, seed: u64, run: u64, skip: &BTreeSet<usize>, list: bool) {
    crate::world::init();
    let mut sc = crate::gen::gen(prop, "dbg", seed, run);
    let mut i = 0;
    sc.ops.retain(|_| {
        i += 1;
        !skip.contains(&(i - 1))
    });
    if list {
        let mut left = (0..i).filter(|i| !skip.contains(i));
        for l in sc.to_text().lines().filter(|l| l.starts_with("op ")) {
            println!("OP\t{}\t{}", left.next().unwrap_or(0), l);
        }
    }
    let o = crate::combos::exec(&sc, -1);
    println!("DONE\t{}\t{}\t1\t{:016x}\t0", sc.tasks, o.ops, o.hist);
}

/// How to start the interpreter on the built program.
pub struct Tool {
    exe: PathBuf,
    args: Vec<String>,
    dir: String,
}

impl Tool {
    /// Reads what cargo-miri left behind instead of a binary: the compiler's arguments.
    pub fn find(sim: &Path) -> Option<Tool> {
        let base = sim.join("target-miri");
        let ready = std::fs::read_to_string(base.join("ready")).ok()?;
        let mut ready = ready.lines();
        let (exe, sysroot) = (PathBuf::from(ready.next()?), ready.next()?.to_string());
        let j = std::fs::read_to_string(base.join("miri/x86_64-unknown-linux-gnu/debug/palmsim")).ok()?;
        let from = j.find("\"args\":[")? + 8;
        let mut given = strings(&j[from..])?.into_iter();
        let mut args = vec!["--sysroot".to_string(), sysroot];
        while let Some(a) = given.next() {
            if a == "--out-dir" {
                given.next();
            } else if a == "-C" {
                let v = given.next()?;
                if !v.starts_with("incremental=") {
                    args.extend([a, v]);
                }
            } else if !["--error-format", "--json", "--emit", "--force-warn"].iter().any(|p| a.starts_with(p)) {
                args.push(a);
            }
        }
        let dir = sim.join("miri").to_str()?.to_string();
        Some(Tool { exe, args, dir })
    }
    fn start(&self, j: &Job, list: bool) -> Option<Child> {
        let mut c = Command::new(&self.exe);
        c.args(&self.args)
            .arg("-Awarnings")
            .args(["-Zmiri-disable-stacked-borrows", "-Zmiri-disable-validation"])
            .arg(format!("-Zmiri-seed={}", j.mseed))
            .arg(format!("-Zmiri-preemption-rate={}", j.preempt));
        if !j.leaks() {
            c.arg("-Zmiri-ignore-leaks");
        }
        c.arg("--")
            .args([&j.mode, &j.prop, &j.seed.to_string(), &j.run.to_string()])
            .arg(j.skip.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        if list {
            c.arg("list");
        }
        c.current_dir(&self.dir)
            .env_clear()
            .env("PATH", "/usr/bin:/bin")
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .ok()
    }
}

/// The strings of a JSON array, up to its end.
fn strings(t: &str) -> Option<Vec<String>> {
    let mut out = Vec::new();
    let mut it = t.chars();
    loop {
        match it.next()? {
            ']' => return Some(out),
            '"' => {
                let mut s = String::new();
                loop {
                    match it.next()? {
                        '"' => break,
                        '\\' => s.push(it.next()?),
                        c => s.push(c),
                    }
                }
                out.push(s);
            }
            _ => {}
        }
    }
}

#[derive(Clone, Debug)]
pub struct Job {
    pub prop: String,
    pub mode: String,
    pub seed: u64,
    pub run: u64,
    pub mseed: u64,
    pub preempt: String,
    pub skip: BTreeSet<usize>,
}

impl Job {
    fn new(prop: &str, seed: u64, run: u64) -> Job {
        let free = match prop {
            "C09" => true,
            "C04" => run % 2 == 0,
            _ => false,
        };
        Job {
            prop: prop.into(),
            mode: if free { "free" } else { "scen" }.into(),
            seed,
            run,
            mseed: mix(seed ^ mix(run)) >> 33,
            preempt: ["0.01", "0.04", "0.15"][(mix(run ^ 77) % 3) as usize].into(),
            skip: BTreeSet::new(),
        }
    }
    fn leaks(&self) -> bool {
        self.prop == "C04" && self.mode == "free"
    }
    fn text(&self, e: &End, ops: &str) -> String {
        let skip: Vec<String> = self.skip.iter().map(|x| x.to_string()).collect();
        format!(
            "palmsim-interp 1\nprop {}\nclass {}\nmessage {}\nmode {}\norigin {} {}\nmseed {}\npreempt {}\nskip {}\n{}",
            self.prop, e.class, e.msg, self.mode, self.seed, self.run, self.mseed, self.preempt, skip.join(","), ops
        )
    }
    fn parse(t: &str) -> Option<Job> {
        let f = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)?.strip_prefix(' ')).unwrap_or("").trim().to_string();
        let o = f("origin");
        let (s, r) = o.split_once(' ')?;
        Some(Job {
            prop: f("prop"),
            mode: f("mode"),
            seed: s.parse().ok()?,
            run: r.parse().ok()?,
            mseed: f("mseed").parse().ok()?,
            preempt: f("preempt"),
            skip: f("skip").split(',').filter_map(|x| x.parse().ok()).collect(),
        })
    }
}

/// How a run ended: "" it finished, "none" it gave no answer, or the kind of failure.
#[derive(Clone, Debug, Default)]
pub struct End {
    pub class: String,
    pub msg: String,
    tasks: u64,
    ops: u64,
    dead: u64,
    sig: u64,
    callbacks: u64,
}
impl End {
    fn failed(&self) -> bool {
        !self.class.is_empty() && self.class != "none"
    }
    fn family(&self) -> &str {
        self.class.split(':').next().unwrap_or("")
    }
}

fn judge(j: &Job, code: Option<i32>, out: &str, err: &str) -> End {
    let mut e = End::default();
    let done = out.lines().find_map(|l| l.strip_prefix("DONE\t"));
    if let Some(d) = done {
        let f: Vec<&str> = d.split('\t').collect();
        let n = |i: usize| f.get(i).and_then(|x| x.parse().ok()).unwrap_or(0);
        (e.tasks, e.ops, e.dead, e.callbacks) = (n(0), n(1), n(2), n(4));
        e.sig = f.get(3).and_then(|x| u64::from_str_radix(x, 16).ok()).unwrap_or(0);
    }
    let mut set = |c: &str, m: &str| {
        e.class = c.into();
        e.msg = m.trim().replace('\n', " ");
    };
    if let Some(l) = out.lines().find(|l| l.starts_with("FAIL\t")) {
        let f: Vec<&str> = l.splitn(4, '\t').collect();
        let class = f.get(2).unwrap_or(&"?");
        if class.starts_with("harness:") {
            set("none", class);
        } else {
            set(class, f.get(3).unwrap_or(&""));
        }
        return e;
    }
    if code == Some(0) && done.is_some() {
        return e;
    }
    for l in err.lines() {
        let Some(m) = l.strip_prefix("error: ") else { continue };
        if let Some(m) = m.strip_prefix("Undefined Behavior: ") {
            set(if m.contains("Data race") { "race:interp" } else { "memory:interp" }, m);
            return e;
        }
        if m.contains("deadlocked") {
            set("hang:deadlock", m);
            return e;
        }
        if m.starts_with("abnormal termination") {
            set("crash:abort", m);
            return e;
        }
        if m.starts_with("memory leaked") {
            // what a dying task leaves behind may leak
            if j.leaks() && done.is_some() && e.dead == 0 {
                e.class = "leak:interp".into();
                e.msg = m.into();
            }
            return e;
        }
    }
    let first = err.lines().find(|l| l.starts_with("error")).unwrap_or("no verdict").to_string();
    e.class = "none".into();
    e.msg = first;
    e
}

struct Running {
    job: Job,
    child: Child,
    out: std::thread::JoinHandle<String>,
    err: std::thread::JoinHandle<String>,
    t: Instant,
    dropped: bool,
}

fn reader(mut r: impl Read + Send + 'static) -> std::thread::JoinHandle<String> {
    std::thread::spawn(move || {
        let mut b = Vec::new();
        let _ = r.read_to_end(&mut b);
        String::from_utf8_lossy(&b).into_owned()
    })
}

fn launch(t: &Tool, job: Job, list: bool) -> Option<Running> {
    let mut child = t.start(&job, list)?;
    let (out, err) = (reader(child.stdout.take()?), reader(child.stderr.take()?));
    Some(Running { job, child, out, err, t: Instant::now(), dropped: false })
}

impl Running {
    /// Whether the run has ended, and how.
    fn poll(&mut self, limit: Duration) -> Option<(End, String)> {
        let code = match self.child.try_wait() {
            Ok(Some(s)) => s.code(),
            Ok(None) if self.dropped || self.t.elapsed() > limit => {
                let _ = self.child.kill();
                let _ = self.child.wait();
                self.dropped = true;
                None
            }
            Ok(None) => return None,
            Err(_) => None,
        };
        let take = |h: &mut std::thread::JoinHandle<String>| {
            std::mem::replace(h, std::thread::spawn(String::new)).join().unwrap_or_default()
        };
        let (out, err) = (take(&mut self.out), take(&mut self.err));
        if self.dropped {
            let e = End { class: "none".into(), msg: "out of time".into(), ..End::default() };
            return Some((e, out));
        }
        Some((judge(&self.job, code, &out, &err), out))
    }
}

/// Run all, in order, a few at a time, until the time is up or one fails.
/// With `all`, jobs end when the first (in order) that `hit` accepts is known.
fn hunt(
    t: &Tool,
    mut next: impl FnMut() -> Option<Job>,
    until: Instant,
    mut each: impl FnMut(&Job, &End),
    hit: impl Fn(&End) -> bool,
) -> Option<(Job, End)> {
    let mut live: Vec<Running> = Vec::new();
    let mut best: Option<(Job, End, usize)> = None;
    let (mut started, mut order) = (0usize, Vec::new());
    let mut dry = false;
    loop {
        while live.len() < PARALLEL && !dry && best.is_none() && Instant::now() < until {
            match next() {
                Some(j) => match launch(t, j, false) {
                    Some(r) => {
                        live.push(r);
                        order.push(started);
                        started += 1;
                    }
                    None => dry = true,
                },
                None => dry = true,
            }
        }
        if live.is_empty() {
            break;
        }
        let late = Instant::now() > until + Duration::from_secs(5);
        let mut i = 0;
        while i < live.len() {
            let no = order[i];
            if late || best.as_ref().is_some_and(|b| b.2 < no) {
                live[i].dropped = true;
            }
            let dropped = live[i].dropped;
            if let Some((e, _)) = live[i].poll(ONE) {
                let r = live.remove(i);
                order.remove(i);
                if !dropped {
                    each(&r.job, &e);
                }
                if hit(&e) && !best.as_ref().is_some_and(|b| b.2 < no) {
                    best = Some((r.job, e, no));
                }
            } else {
                i += 1;
            }
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    best.map(|(j, e, _)| (j, e))
}

/// One run to its end, with its output.
fn once(t: &Tool, j: &Job, list: bool) -> Option<(End, String)> {
    let mut r = launch(t, j.clone(), list)?;
    loop {
        if let Some(x) = r.poll(ONE * 2) {
            return Some(x);
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

#[derive(Default)]
pub struct Report {
    pub available: bool,
    pub runs: u64,
    pub no_answer: u64,
    pub secs: f64,
    pub ops: u64,
    pub callbacks: u64,
    pub threads: u64,
    pub died: u64,
    pub sigs: HashSet<u64>,
    pub preempt: BTreeMap<String, u64>,
    pub modes: BTreeMap<String, u64>,
    pub why: BTreeMap<String, u64>,
    pub found: Option<(PathBuf, String, String, u64)>,
}

/// The operations a run consists of.
fn listing(t: &Tool, j: &Job) -> Vec<(usize, String)> {
    let Some((_, out)) = once(t, j, true) else { return Vec::new() };
    out.lines()
        .filter_map(|l| {
            let mut f = l.strip_prefix("OP\t")?.splitn(2, '\t');
            Some((f.next()?.parse().ok()?, f.next()?.to_string()))
        })
        .collect()
}

fn minimise(t: &Tool, mut j: Job, mut e: End, limit: Duration) -> (Job, End, u64, usize) {
    let until = Instant::now() + limit;
    let all: Vec<usize> = listing(t, &j).iter().map(|x| x.0).collect();
    let n = all.len();
    let mut left: Vec<usize> = all.clone();
    let mut execs = 0;
    let mut chunk = (left.len() / 2).max(1);
    while !left.is_empty() && Instant::now() < until {
        let mut cands: Vec<(Job, Vec<usize>)> = Vec::new();
        for at in (0..left.len()).step_by(chunk) {
            let keep: Vec<usize> =
                left.iter().enumerate().filter(|(i, _)| *i < at || *i >= at + chunk).map(|(_, x)| *x).collect();
            let mut c = j.clone();
            c.skip = all.iter().copied().filter(|x| !keep.contains(x)).collect();
            cands.push((c, keep));
        }
        let fam = e.family().to_string();
        let mut it = cands.iter();
        let hit = hunt(
            t,
            || it.next().map(|c| c.0.clone()),
            until,
            |_, _| execs += 1,
            |x| x.failed() && x.family() == fam,
        );
        match hit {
            Some((c, x)) => {
                left = all.iter().copied().filter(|x| !c.skip.contains(x)).collect();
                (j, e) = (c, x);
                chunk = chunk.min((left.len() / 2).max(1));
            }
            None if chunk == 1 => break,
            None => chunk = (chunk / 2).max(1),
        }
    }
    (j, e, execs, n)
}

pub fn campaign(t: Option<&Tool>, dir: &Path, prop: &str, seed: u64, limit: Duration, max: u64) -> Report {
    let mut rep = Report::default();
    let Some(t) = t else { return rep };
    rep.available = true;
    let t0 = Instant::now();
    let mut run = 0;
    // Not the same failure twice: one that does not repeat is not believed.
    let found = hunt(
        t,
        || {
            run += 1;
            (run <= max).then(|| Job::new(prop, seed, run - 1))
        },
        t0 + limit,
        |j, e| {
            if e.class == "none" {
                rep.no_answer += 1;
                *rep.why.entry(e.msg.chars().take(80).collect()).or_default() += 1;
                return;
            }
            rep.runs += 1;
            rep.ops += e.ops;
            rep.callbacks += e.callbacks;
            rep.threads += e.tasks;
            if j.mode == "free" {
                rep.died += e.dead;
            }
            rep.sigs.insert(e.sig);
            *rep.preempt.entry(j.preempt.clone()).or_default() += 1;
            *rep.modes.entry(j.mode.clone()).or_default() += 1;
        },
        |e| e.failed(),
    );
    rep.secs = t0.elapsed().as_secs_f64();
    let Some((j, e)) = found else { return rep };
    match once(t, &j, false) {
        Some((x, _)) if x.class == e.class && x.msg == e.msg => {}
        other => {
            rep.no_answer += 1;
            eprintln!("palmsim: a failure in the interpreter did not repeat: run {} {:?} then {:?}", j.run, e, other);
            return rep;
        }
    }
    let (j, e, execs, n) = minimise(t, j, e, Duration::from_secs(100));
    let ops: String = listing(t, &j).iter().map(|(i, l)| format!("# {} {}\n", i, l)).collect();
    let _ = std::fs::create_dir_all(dir.join("replays"));
    let path = dir.join("replays").join(format!("{}-{}-i{}.sim", prop, seed, j.run));
    if std::fs::write(&path, j.text(&e, &ops)).is_err() {
        eprintln!("palmsim: cannot write the replay file");
    }
    eprintln!(
        "palmsim: interpreted run {} seed {}: {} of {} ops left after {} executions, {:.0} s",
        j.run, seed, n - j.skip.len().min(n), n, execs, t0.elapsed().as_secs_f64()
    );
    rep.found = Some((path, e.class, e.msg, j.run));
    rep
}

/// Re-execute a replay file of this kind; the exit code.
pub fn replay(t: Option<&Tool>, file: &str, text: &str) -> i32 {
    let (Some(t), Some(j)) = (t, Job::parse(text)) else {
        eprintln!("palmsim: no interpreter, or a bad replay file");
        return 2;
    };
    match once(t, &j, false) {
        Some((e, _)) if e.failed() => {
            println!("{}: {} ({})", j.prop, e.class, e.msg);
            println!("VIOLATION property={} replay={}", j.prop, file);
            1
        }
        x => {
            println!("not reproduced: {:?}", x.map(|x| x.0));
            0
        }
    }
}
