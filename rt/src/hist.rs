//! Explores histories of calls, calls made from inside user code of other calls, and interleavings
//! of threads. Every scenario runs in a process of its own, forked from one that has made no call
//! yet, so that nothing is initialised; each call's result is compared with the model's.
//!
//! User code (FromStr, closures, default expressions, Deref ..) calls `cb()`. There a plan can ask
//! for a nested call, a call in another thread that is joined, or a panic, and there (and where calls
//! begin and end) the controlled scheduler may switch threads.

use crate::explore::{call, show, SiteFn};
use crate::inside;
use crate::json::{self, J};
use crate::model::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::Write;
use std::sync::{Arc, Condvar, Mutex, MutexGuard, OnceLock};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn sched_getaffinity(pid: i32, n: usize, mask: *mut u64) -> i32;
    fn sched_setaffinity(pid: i32, n: usize, mask: *const u64) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn _exit(code: i32) -> !;
    fn mmap(at: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

// ------------------------------------------------------------------------------------------------
// plans

#[derive(Debug, Clone)]
pub struct Tree {
    op: usize,
    at: Option<(u32, Kid)>,
}
#[derive(Debug, Clone)]
enum Kid {
    Call(Arc<Tree>),
    Thread(Arc<Tree>),
    Panic,
}
impl std::fmt::Display for Tree {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.op)?;
        match &self.at {
            None => Ok(()),
            Some((j, Kid::Call(t))) => write!(f, "@{j}(C{t})"),
            Some((j, Kid::Thread(t))) => write!(f, "@{j}(T{t})"),
            Some((j, Kid::Panic)) => write!(f, "@{j}(P)"),
        }
    }
}
fn parse_tree(s: &mut &str) -> Tree {
    fn num(s: &mut &str) -> usize {
        let n = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
        let v = s[..n].parse().unwrap();
        *s = &s[n..];
        v
    }
    let op = num(s);
    let mut at = None;
    if let Some(r) = s.strip_prefix('@') {
        *s = r;
        let j = num(s) as u32;
        let k = s[1..].chars().next().unwrap();
        *s = &s[2..];
        let kid = match k {
            'P' => Kid::Panic,
            'C' => Kid::Call(Arc::new(parse_tree(s))),
            _ => Kid::Thread(Arc::new(parse_tree(s))),
        };
        *s = &s[1..];
        at = Some((j, kid));
    }
    Tree { op, at }
}
/// The threads of a scenario, each a sequence of calls (one thread: a history).
#[derive(Debug, Clone)]
pub struct Scenario(Vec<Vec<Arc<Tree>>>);
impl std::fmt::Display for Scenario {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        // `3*300` stands for 300 times `3`
        let thread = |v: &Vec<Arc<Tree>>| {
            let mut runs: Vec<(String, usize)> = vec![];
            for t in v {
                let t = t.to_string();
                match runs.last_mut() {
                    Some(r) if r.0 == t => r.1 += 1,
                    _ => runs.push((t, 1)),
                }
            }
            let runs: Vec<String> = runs.into_iter().map(|(t, n)| if n == 1 { t } else { format!("{t}*{n}") }).collect();
            runs.join(";")
        };
        write!(f, "{}", self.0.iter().map(thread).collect::<Vec<_>>().join("|"))
    }
}
pub fn parse_scenario(s: &str) -> Scenario {
    let run = |mut x: &str| {
        let t = Arc::new(parse_tree(&mut x));
        vec![t; x.strip_prefix('*').map_or(1, |n| n.parse().unwrap())]
    };
    Scenario(s.split('|').map(|t| t.split(';').flat_map(run).collect()).collect())
}

// ------------------------------------------------------------------------------------------------
// running a scenario (in a child process)

struct Op {
    f: SiteFn,
    name: String,
    input: String,
    want: Outcome,
    ncb: u32,
}
static OPS: OnceLock<Vec<Op>> = OnceLock::new();
static BAD: Mutex<Vec<String>> = Mutex::new(vec![]);
static COUNT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
static SAME: Mutex<Option<HashMap<u32, usize>>> = Mutex::new(None);

fn bad(s: String) {
    BAD.lock().unwrap_or_else(|e| e.into_inner()).push(s);
}
struct Frame {
    cbs: u32,
    tree: Arc<Tree>,
}
thread_local! {
    static FRAMES: RefCell<Vec<Frame>> = const { RefCell::new(vec![]) };
    /// inputs of calls at the same depth are at the same address
    static BUFS: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

/// To be called by user code inside calls.
pub fn cb() {
    point();
    let kid = FRAMES.with(|f| {
        let mut f = f.borrow_mut();
        let f = f.last_mut()?;
        f.cbs += 1;
        match &f.tree.at {
            Some((j, k)) if *j + 1 == f.cbs => Some(k.clone()),
            _ => None,
        }
    });
    match kid {
        None => {}
        Some(Kid::Panic) => panic!("cb"),
        Some(Kid::Call(t)) => run_tree(&t),
        Some(Kid::Thread(t)) => {
            let _ = std::thread::spawn(move || run_tree(&t)).join();
        }
    }
}
/// The regex objects of one call site have to be one.
pub fn same<T>(site: u32, r: &T) {
    let at = r as *const T as usize;
    let mut m = SAME.lock().unwrap();
    if *m.get_or_insert_with(HashMap::new).entry(site).or_insert(at) != at {
        bad(format!("get_regex call site {site} returned another regex object"));
    }
}

fn run_tree(t: &Arc<Tree>) {
    let op = &OPS.get().unwrap()[t.op];
    let depth = FRAMES.with(|f| {
        f.borrow_mut().push(Frame { cbs: 0, tree: t.clone() });
        f.borrow().len()
    });
    let mut buf = BUFS.with(|b| {
        let mut b = b.borrow_mut();
        while b.len() < depth {
            b.push(String::with_capacity(256));
        }
        std::mem::take(&mut b[depth - 1])
    });
    buf.clear();
    buf.push_str(&op.input);
    COUNT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let got = call(op.f, &buf);
    BUFS.with(|b| b.borrow_mut()[depth - 1] = buf);
    let cbs = FRAMES.with(|f| {
        let mut f = f.borrow_mut();
        f.truncate(depth);
        f.pop().unwrap().cbs
    });
    let panics = matches!(t.at, Some((_, Kid::Panic)));
    let ok = if panics { got == Outcome::Panic("cb".into()) } else { got == op.want };
    if !ok {
        let want = if panics { "panic(cb)".into() } else { show(&op.want) };
        bad(format!("{} on {:?} required {want}, got {}", op.name, op.input, show(&got)));
    } else if op.ncb != u32::MAX && !panics && cbs != op.ncb {
        bad(format!("{} on {:?} ran user code {} times, {cbs} times here", op.name, op.input, op.ncb));
    }
    if op.ncb == u32::MAX {
        CBS.store(cbs, std::sync::atomic::Ordering::Relaxed);
    }
}
static CBS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);

// the scheduler -----------------------------------------------------------------------------------

#[derive(Default)]
struct Sched {
    on: bool,
    cur: usize,
    finished: Vec<bool>,
    blocked: Vec<bool>,
    /// at a point (or not begun), waiting to be chosen: such a thread can always go on
    parked: Vec<bool>,
    tids: Vec<i32>,
    prefix: Vec<usize>,
    trace: Vec<(usize, usize)>,
    progress: u64,
    /// how many more times a thread that could go on may be set aside
    preemptions: usize,
}
static SCHED: Mutex<Option<Sched>> = Mutex::new(None);
static COND: Condvar = Condvar::new();

impl Sched {
    /// chooses who runs next
    fn choose(&mut self) {
        let mut en: Vec<usize> = (0..self.finished.len()).filter(|&t| !self.finished[t] && !self.blocked[t]).collect();
        let go_on = en.iter().position(|&t| t == self.cur);
        if let Some(k) = go_on {
            let t = en.remove(k);
            en.insert(0, t);
            if self.preemptions == 0 {
                en.truncate(1);
            }
        }
        match en.len() {
            0 => self.cur = usize::MAX,
            1 => self.cur = en[0],
            n => {
                let k = self.prefix.get(self.trace.len()).copied().unwrap_or(0).min(n - 1);
                self.trace.push((n, k));
                if k > 0 && go_on.is_some() {
                    self.preemptions -= 1;
                }
                self.cur = en[k];
            }
        }
        self.progress += 1;
    }
}
fn point() {
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    let mut g = SCHED.lock().unwrap();
    let s = g.as_mut().unwrap();
    if s.cur == me {
        s.choose();
    } else {
        s.blocked[me] = false;
        s.progress += 1;
        if s.cur == usize::MAX {
            s.choose();
        }
    }
    COND.notify_all();
    park(g, me);
}
fn park(mut g: MutexGuard<Option<Sched>>, me: usize) {
    g.as_mut().unwrap().parked[me] = true;
    while g.as_ref().unwrap().cur != me {
        g = COND.wait(g).unwrap();
    }
    let s = g.as_mut().unwrap();
    s.parked[me] = false;
    s.progress += 1;
}
fn run_threads(threads: Vec<Vec<Arc<Tree>>>, prefix: Vec<usize>, preemptions: usize) -> Vec<(usize, usize)> {
    let n = threads.len();
    {
        let mut g = SCHED.lock().unwrap();
        *g = Some(Sched { on: true, cur: usize::MAX, finished: vec![false; n], blocked: vec![false; n], parked: vec![true; n], tids: vec![0; n], prefix, preemptions, ..Default::default() });
    }
    let hs: Vec<_> = threads
        .into_iter()
        .enumerate()
        .map(|(k, ops)| {
            std::thread::spawn(move || {
                ME.with(|m| m.set(k));
                {
                    let mut g = SCHED.lock().unwrap();
                    g.as_mut().unwrap().tids[k] = unsafe { inside::gettid() };
                    park(g, k);
                }
                for (i, t) in ops.iter().enumerate() {
                    if i > 0 {
                        point();
                    }
                    run_tree(t);
                }
                let mut g = SCHED.lock().unwrap();
                let s = g.as_mut().unwrap();
                s.finished[k] = true;
                s.blocked[k] = false;
                if s.cur == k || s.cur == usize::MAX {
                    s.choose();
                }
                COND.notify_all();
            })
        })
        .collect();
    let mut g = SCHED.lock().unwrap();
    g.as_mut().unwrap().choose();
    COND.notify_all();
    // a thread that sleeps in the kernel although it was chosen is blocked by what another one holds:
    // let the others go on. (One that merely gets no processor is waited for.)
    let mut last = 0;
    let mut asleep = 0;
    loop {
        let s = g.as_mut().unwrap();
        if s.finished.iter().all(|f| *f) {
            break;
        }
        if s.progress != last {
            (last, asleep) = (s.progress, 0);
        } else {
            let stuck = |t: usize| !s.parked[t] && s.tids[t] != 0 && unsafe { inside::sleeps(s.tids[t]) };
            let still = match s.cur {
                usize::MAX => (0..s.finished.len()).filter(|&t| !s.finished[t]).all(stuck),
                c => stuck(c),
            };
            asleep = if still { asleep + 1 } else { 0 };
        }
        if s.cur != usize::MAX {
            if asleep >= 25 {
                let c = s.cur;
                s.blocked[c] = true;
                s.choose();
                asleep = 0;
                COND.notify_all();
            }
        } else if asleep >= 250 {
            bad("deadlock: no thread can go on".into());
            return g.as_ref().unwrap().trace.clone();
        }
        g = COND.wait_timeout(g, Duration::from_millis(20)).unwrap().0;
    }
    let trace = g.as_ref().unwrap().trace.clone();
    drop(g);
    for h in hs {
        let _ = h.join();
    }
    trace
}

// processes ---------------------------------------------------------------------------------------

struct Ran {
    trace: Vec<(usize, usize)>,
    calls: u64,
    cbs: u32,
    bad: Vec<String>,
}
/// Runs a scenario in a process of its own.
fn run(sc: &Scenario, prefix: &[usize], preemptions: usize) -> Ran {
    unsafe {
        let mut fds = [0; 2];
        assert_eq!(pipe(fds.as_mut_ptr()), 0);
        let pid = fork();
        assert!(pid >= 0);
        if pid == 0 {
            close(fds[0]);
            alarm(60);
            let trace = if sc.0.len() == 1 {
                for t in &sc.0[0] {
                    run_tree(t);
                }
                vec![]
            } else {
                run_threads(sc.0.clone(), prefix.to_vec(), preemptions)
            };
            let mut out = format!(
                "{} {}\n",
                COUNT.load(std::sync::atomic::Ordering::Relaxed),
                CBS.load(std::sync::atomic::Ordering::Relaxed)
            );
            out.push_str(&trace.iter().map(|(a, b)| format!("{a},{b} ")).collect::<String>());
            out.push('\n');
            for b in BAD.lock().unwrap_or_else(|e| e.into_inner()).iter().take(3) {
                out.push_str(&b.chars().take(600).collect::<String>().replace('\n', " "));
                out.push('\n');
            }
            out.push_str(".\n");
            write(fds[1], out.as_ptr(), out.len());
            _exit(0);
        }
        close(fds[1]);
        let mut buf = vec![];
        let mut chunk = [0u8; 4096];
        loop {
            let n = read(fds[0], chunk.as_mut_ptr(), chunk.len());
            if n <= 0 {
                break;
            }
            buf.extend_from_slice(&chunk[..n as usize]);
        }
        close(fds[0]);
        let mut status = 0;
        waitpid(pid, &mut status, 0);
        let text = String::from_utf8_lossy(&buf).to_string();
        if !text.ends_with(".\n") {
            let why = match status & 0x7f {
                14 => "the calls do not return (deadlock)".to_string(),
                0 => format!("the process ended with {}", status >> 8),
                s => format!("the process was ended by signal {s}"),
            };
            return Ran { trace: vec![], calls: 0, cbs: 0, bad: vec![why] };
        }
        let mut lines = text.lines();
        let mut h = lines.next().unwrap().split(' ');
        let calls = h.next().unwrap().parse().unwrap();
        let cbs = h.next().unwrap().parse().unwrap();
        let trace = lines
            .next()
            .unwrap()
            .split_whitespace()
            .map(|p| {
                let (a, b) = p.split_once(',').unwrap();
                (a.parse().unwrap(), b.parse().unwrap())
            })
            .collect();
        let mut bad: Vec<String> = lines.map(String::from).collect();
        bad.pop();
        Ran { trace, calls, cbs, bad }
    }
}

#[derive(Default)]
struct Total {
    scenarios: u64,
    schedules: u64,
    calls: u64,
    points: u64,
    nviol: u64,
    capped: u64,
    waited: u64,
    viol: Vec<(String, String)>,
}
/// whether calls that do not return were seen and confirmed
static HANGS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Every schedule of a scenario.
fn explore(sc: &Scenario, preemptions: usize, cap: u64, tot: &mut Total) {
    tot.scenarios += 1;
    let mut prefix: Vec<usize> = vec![];
    let mut n = 0;
    let mut prev: Vec<usize> = vec![];
    loop {
        let mut r = run(sc, &prefix, preemptions);
        // calls that do not return have to do so three times
        let hangs = |r: &Ran| r.bad.iter().any(|b| b.contains("(deadlock)") || b.starts_with("deadlock"));
        if hangs(&r) && !HANGS.load(std::sync::atomic::Ordering::Relaxed) {
            for _ in 0..2 {
                r = run(sc, &prefix, preemptions);
                if !hangs(&r) {
                    break;
                }
            }
            HANGS.store(hangs(&r), std::sync::atomic::Ordering::Relaxed);
        }
        n += 1;
        tot.schedules += 1;
        tot.calls += r.calls;
        let choices: Vec<usize> = r.trace.iter().map(|t| t.1).collect();
        // points not shared with the schedule before
        let common = choices.iter().zip(&prev).take_while(|(a, b)| a == b).count();
        tot.points += (choices.len() - common) as u64 + 1;
        if !r.bad.is_empty() {
            tot.nviol += 1;
            if tot.viol.len() < 5 {
                let c: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
                tot.viol.push((format!("{sc}#{preemptions}#{}", c.join(",")), r.bad.join("; ")));
            }
            return;
        }
        let Some(p) = (0..r.trace.len()).rev().find(|&i| r.trace[i].1 + 1 < r.trace[i].0) else { return };
        if n >= cap {
            tot.capped += 1;
            return;
        }
        prefix = choices[..p].to_vec();
        prefix.push(choices[p] + 1);
        prev = choices;
    }
}

/// Steps through operation `a` (after both were called once, if warm), with `b` in another thread at every point.
fn run_inside(warm: bool, two: bool, a: usize, b: usize, only: Option<(u64, u64)>, tot: &mut Total) {
    let name = format!("I{}{a}!{b}", if warm { 'w' } else { 'c' });
    tot.scenarios += 1;
    unsafe {
        let mut fds = [0; 2];
        assert_eq!(pipe(fds.as_mut_ptr()), 0);
        let pid = fork();
        assert!(pid >= 0);
        if pid == 0 {
            close(fds[0]);
            let leaf = |o: usize| Arc::new(Tree { op: o, at: None });
            let (la, lb, lb2) = (leaf(a), leaf(b), leaf(b));
            if warm {
                run_tree(&la);
                run_tree(&lb);
            }
            let l = la.clone();
            inside::explore(
                fds[1],
                only,
                two,
                &move || run_tree(&l),
                Box::new(move || run_tree(&lb)),
                &move || {
                    run_tree(&la);
                    run_tree(&lb2);
                },
                &|| BAD.lock().unwrap_or_else(|e| e.into_inner()).iter().take(3).cloned().collect(),
            );
        }
        close(fds[1]);
        let mut buf = vec![];
        let mut chunk = [0u8; 4096];
        loop {
            let n = read(fds[0], chunk.as_mut_ptr(), chunk.len());
            if n <= 0 {
                break;
            }
            buf.extend_from_slice(&chunk[..n as usize]);
        }
        close(fds[0]);
        let mut status = 0;
        waitpid(pid, &mut status, 0);
        let text = String::from_utf8_lossy(&buf).to_string();
        let mut ended = false;
        for l in text.lines() {
            let mut w = l.splitn(3, ' ');
            match w.next() {
                Some("B") => {
                    let k = w.next().unwrap();
                    tot.nviol += 1;
                    tot.viol.push((format!("{name}#{}#{k}", 1 + two as u32), w.next().unwrap_or("").into()));
                }
                _ => {
                    let v: Vec<u64> = l[2..].split(' ').map(|x| x.parse().unwrap()).collect();
                    tot.schedules += v[1];
                    tot.points += v[1];
                    tot.calls += 4 * v[1];
                    tot.waited += v[2];
                    ended = true;
                }
            }
        }
        if !ended && status & 0x7f == 14 {
            tot.capped += 1;
        } else if !ended {
            tot.nviol += 1;
            tot.viol.push((format!("{name}#{}#", 1 + two as u32), format!("the process ended with status {status}")));
        }
    }
}

/// How many preemptions the schedules of a family have.
fn preemptions(spec: &J, family: &str) -> usize {
    spec.get("preemptions").get(family).opt_num().unwrap_or(0) as usize
}
/// Hands every scenario, with the family it belongs to, to `out`.
fn scenarios(ops: &[Op], spec: &J, out: &mut dyn FnMut(&'static str, Scenario) -> bool) {
    let n = ops.len();
    let mut stop = false;
    let mut fam = "histories";
    macro_rules! put { ($s:expr) => { if !stop && !out(fam, $s) { stop = true; } } }
    let leaf = |o: usize| Arc::new(Tree { op: o, at: None });
    let with = |o: usize, j: u32, k: Kid| Arc::new(Tree { op: o, at: Some((j, k)) });
    let set = |k: &str| spec.get(k).arr().iter().map(|x| x.num() as usize).collect::<Vec<_>>();
    let (core, small, cbs, once) = (set("core"), set("small"), set("callbacks"), set("once"));
    let deep = spec.get("deep").truthy();
    let seq = |v: Vec<Arc<Tree>>| Scenario(vec![v]);
    // something may only be used up after many calls
    fam = "long histories";
    let all = || (0..n).map(leaf);
    let often = if deep { 1000 } else { 300 };
    for a in 0..n {
        if !once.contains(&a) {
            put!(seq(vec![leaf(a); often].into_iter().chain(all()).collect()));
        }
        put!(seq(all().skip(a).chain(all()).chain(all().take(a).rev()).chain(all()).collect()));
    }
    for &a in &cbs {
        for j in 0..ops[a].ncb {
            put!(seq(vec![with(a, j, Kid::Panic); often].into_iter().chain(all()).collect()));
        }
    }
    for &a in &small {
        if ops[a].ncb > 0 {
            for &b in &small {
                put!(seq(vec![with(a, 0, Kid::Thread(leaf(b))); often].into_iter().chain(all()).collect()));
            }
        }
    }
    let brief: Vec<usize> = (0..n).filter(|k| !once.contains(k)).collect();
    fam = "histories";
    for &a in &brief {
        for &b in &brief {
            put!(seq(vec![leaf(a), leaf(b), leaf(a)]));
        }
    }
    for &a in &core {
        for &b in &core {
            for &c in &core {
                put!(seq(vec![leaf(a), leaf(b), leaf(c), leaf(a)]));
            }
        }
    }
    fam = "nested";
    for &a in &cbs {
        for j in 0..ops[a].ncb {
            fam = "nested";
            // user code that panics, then other calls and the same again
            for &b in &brief {
                put!(seq(vec![with(a, j, Kid::Panic), leaf(b), leaf(a)]));
                put!(seq(vec![with(a, j, Kid::Call(leaf(b))), leaf(b), leaf(a)]));
                put!(seq(vec![leaf(a), with(a, j, Kid::Thread(leaf(b))), leaf(a)]));
            }
            fam = "nested twice";
            for &b in &cbs {
                for k in 0..ops[b].ncb {
                    if !deep && k > 0 && k + 1 < ops[b].ncb {
                        continue;
                    }
                    put!(seq(vec![with(a, j, Kid::Call(with(b, k, Kid::Panic))), leaf(b), leaf(a)]));
                    for &c in if deep { &core } else { &small } {
                        put!(seq(vec![with(a, j, Kid::Call(with(b, k, Kid::Call(leaf(c)))))]));
                    }
                    for &c in if deep { &small } else { &small[..1] } {
                        put!(seq(vec![with(a, j, Kid::Thread(with(b, k, Kid::Call(leaf(c)))))]));
                        put!(seq(vec![with(a, j, Kid::Call(with(b, k, Kid::Thread(leaf(c)))))]));
                    }
                }
            }
            let mut t = leaf(a);
            for _ in 0..6 {
                t = with(a, j, Kid::Call(t));
                put!(seq(vec![t.clone(), leaf(a)]));
            }
        }
    }
    fam = "two threads";
    for (i, &a) in brief.iter().enumerate() {
        for &b in &brief[i..] {
            put!(Scenario(vec![vec![leaf(a)], vec![leaf(b)]]));
        }
    }
    fam = "two threads, 2+1 calls";
    for &a in &core {
        for &b in &core {
            for &c in &small {
                put!(Scenario(vec![vec![leaf(a), leaf(b)], vec![leaf(c)]]));
            }
        }
    }
    fam = "two threads, 2+2 calls";
    for (i, &a) in small.iter().enumerate() {
        for &b in &small[i..] {
            for &c in &small {
                for &d in &small {
                    put!(Scenario(vec![vec![leaf(a), leaf(c)], vec![leaf(b), leaf(d)]]));
                }
            }
        }
    }
    fam = "three threads";
    for (i, &a) in small.iter().enumerate() {
        for (k, &b) in small.iter().enumerate().skip(i) {
            for &c in &small[k..] {
                put!(Scenario(vec![vec![leaf(a)], vec![leaf(b)], vec![leaf(c)]]));
            }
        }
    }
    fam = "two threads, nested";
    for &a in &cbs {
        for j in 0..ops[a].ncb {
            for &c in &small {
                for &b in &small {
                    put!(Scenario(vec![vec![with(a, j, Kid::Call(leaf(c)))], vec![leaf(b)]]));
                    if b == c {
                        put!(Scenario(vec![vec![with(a, j, Kid::Panic), leaf(c)], vec![leaf(b)]]));
                    }
                }
            }
        }
    }
}

/// Keeps a worker on one processor: only one of its threads runs at a time anyway.
fn pin(w: usize) {
    unsafe {
        let mut mask = [0u64; 16];
        if sched_getaffinity(0, 128, mask.as_mut_ptr()) > 0 {
            let cpus: Vec<usize> = (0..1024).filter(|c| mask[c / 64] >> (c % 64) & 1 == 1).collect();
            let c = cpus[w % cpus.len()];
            mask = [0; 16];
            mask[c / 64] = 1 << (c % 64);
            sched_setaffinity(0, 128, mask.as_ptr());
        }
    }
}

/// Pairs of calls with preemption between machine instructions: family, warm, two preemptions, calls.
fn pairs(n: usize, spec: &J) -> Vec<(&'static str, bool, bool, usize, usize)> {
    let set = |k: &str| spec.get(k).arr().iter().map(|x| x.num() as usize).collect::<Vec<_>>();
        let once = set("once");
    let (core, small, deep) = (set("core"), set("small"), spec.get("deep").truthy());
    let all: Vec<usize> = (0..n).filter(|k| !once.contains(k)).collect();
    let mut v = vec![];
    let mut put = |f, warm, two, a: &[usize], b: &[usize]| {
        for a in a {
            v.extend(b.iter().map(|b| (f, warm, two, *a, *b)));
        }
    };
    if deep {
        put("inside, warm", true, false, &all, &all);
        put("inside, cold", false, false, &all, &core);
        put("inside, warm, two preemptions", true, true, &core, &core);
        put("inside, cold, two preemptions", false, true, &small, &small);
    } else {
        let rest: Vec<usize> = all.iter().copied().filter(|k| !core.contains(k)).collect();
        put("inside, cold", false, false, &core, &core);
        put("inside, warm", true, false, &core, if spec.get("less").truthy() { &core } else { &all });
        if spec.get("less").truthy() {
            return v;
        }
        put("inside, warm", true, false, &rest, &core);
        put("inside, warm, two preemptions", true, true, &small, &small);
        put("inside, cold, two preemptions", false, true, &small[..1], &small[..1]);
    }
    v
}

/// Arguments: spec, or spec and a scenario with its schedule.
pub fn main(sites: &[(&str, SiteFn)]) {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let spec = json::parse(&std::fs::read_to_string(&args[1]).unwrap());
    let by_id: HashMap<&str, SiteFn> = sites.iter().copied().collect();
    let mut named = HashMap::new();
    if let J::Obj(v) = spec.get("types") {
        for (n, j) in v {
            named.insert(n.clone(), read_node(j));
        }
    }
    let types = Types { named: &named, convs: &crate::convs::conv, maps: &crate::convs::map };
    let mut st = Stats::default();
    let mut ops: Vec<Op> = vec![];
    for o in spec.get("ops").arr() {
        let id = o.get("site").str();
        let want = match o.get("want").opt_str() {
            Some(w) => Outcome::Ok(w.into()),
            None => Model::new(&read_items(o.get("items")), &types).outcome(o.get("input").str(), &types, &mut st),
        };
        ops.push(Op { f: by_id[id], name: o.get("src").str().into(), input: o.get("input").str().into(), want, ncb: u32::MAX });
    }
    OPS.set(ops).ok().unwrap();
    // how often each call runs user code, and that each is right alone
    let mut tot = Total::default();
    let mut counted: Vec<Op> = vec![];
    for (k, o) in OPS.get().unwrap().iter().enumerate() {
        let sc = Scenario(vec![vec![Arc::new(Tree { op: k, at: None })]]);
        let r = run(&sc, &[], 0);
        tot.schedules += 1;
        tot.scenarios += 1;
        tot.calls += r.calls;
        tot.points += 1;
        if !r.bad.is_empty() {
            tot.nviol += 1;
            tot.viol.push((format!("{sc}#0#"), r.bad.join("; ")));
            if tot.nviol >= 3 {
                break;
            }
        }
        counted.push(Op { f: o.f, name: o.name.clone(), input: o.input.clone(), want: o.want.clone(), ncb: r.cbs });
    }
    for (k, o) in spec.get("ops").arr().iter().take(counted.len()).enumerate() {
        if o.get("cbs").opt_num().is_some_and(|n| n != counted[k].ncb as i64) {
            tot.nviol += 1;
            tot.viol.push((format!("{k}#0#"), format!("user code runs {} times instead of {}", counted[k].ncb, o.get("cbs").num())));
        }
    }
    // the callbacks of the plans come from the first runs
    if let Some(s) = args.get(2) {
        let mut p = s.split('#');
        let (s, n, c) = (p.next().unwrap(), p.next().unwrap(), p.next().unwrap());
        let prefix: Vec<usize> = c.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        if let Some(i) = s.strip_prefix('I') {
            let (a, b) = i[1..].split_once('!').unwrap();
            let t0 = Instant::now();
            let mut t = Total::default();
            inside::prepare();
            let only = c.split_once(',').map(|(k, m)| (k.parse().unwrap(), m.parse().unwrap()));
            run_inside(i.starts_with('w'), n == "2", a.parse().unwrap(), b.parse().unwrap(), only, &mut t);
            println!("{}; {} schedules, {} waited, {} capped, {:?}", if t.viol.is_empty() { "as required".to_string() } else { format!("{:?}", t.viol) }, t.schedules, t.waited, t.capped, t0.elapsed());
            std::process::exit(!t.viol.is_empty() as i32);
        }
        let r = run(&parse_scenario(s), &prefix, n.parse().unwrap());
        println!("{}", if r.bad.is_empty() { "as required".to_string() } else { r.bad.join("; ") });
        std::process::exit(!r.bad.is_empty() as i32);
    }
    let cap = spec.get("cap").num() as u64;
    if spec.get("count").truthy() {
        let (mut n, mut last, mut t0, mut t) = (0, "", Instant::now(), Total::default());
        scenarios(&counted, &spec, &mut |f, s| {
            if f != last {
                eprintln!("{last}: {n} scenarios, {} schedules in {:?}", t.schedules, t0.elapsed());
                (n, last, t0, t) = (0, f, Instant::now(), Total::default());
            }
            n += 1;
            if n % 100 == 1 {
                explore(&s, preemptions(&spec, f), cap, &mut t);
            }
            true
        });
        eprintln!("{last}: {n} scenarios, {} schedules in {:?}", t.schedules, t0.elapsed());
        return;
    }
    let workers = 8;
    let start = Instant::now();
    // a deadlock costs half a minute
    let enough = |t: &Total| t.nviol > if t.viol.iter().any(|v| v.1.contains("deadlock")) { 1 } else { 5 };
    inside::prepare();
    let inner = if tot.nviol == 0 { pairs(counted.len(), &spec) } else { vec![] };
    let mut pipes = vec![];
    // what is next, for all workers
    let next: &[std::sync::atomic::AtomicU64] = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        std::slice::from_raw_parts(p as *const _, 2)
    };
    let take = |k: usize, n: u64| next[k].fetch_add(n, std::sync::atomic::Ordering::Relaxed);
    let seconds = spec.get("seconds").num() as u64;
    let late = || start.elapsed() > Duration::from_secs(seconds);
    if tot.nviol == 0 {
        for w in 0..workers {
            unsafe {
                let mut fds = [0; 2];
                assert_eq!(pipe(fds.as_mut_ptr()), 0);
                if fork() == 0 {
                    close(fds[0]);
                    let mut t = Total::default();
                    pin(w);
                    let (mut k, mut mine) = (0, take(0, 8));
                    scenarios(&counted, &spec, &mut |f, sc| {
                        if k == mine + 8 {
                            mine = take(0, 8);
                        }
                        if k >= mine {
                            explore(&sc, preemptions(&spec, f), cap, &mut t);
                        }
                        k += 1;
                        !enough(&t) && !late()
                    });
                    let debug = w == 0 && std::env::var("HIST_DEBUG").is_ok();
                    let (mut last, mut t0, mut s0) = ("histories", start, 0);
                    while let Some((f, warm, two, a, b)) = inner.get(take(1, 1) as usize) {
                        if debug && *f != last {
                            eprintln!("{last}: {} schedules in {:?}", t.schedules - s0, t0.elapsed());
                            (last, t0, s0) = (f, Instant::now(), t.schedules);
                        }
                        if enough(&t) || late() {
                            break;
                        }
                        run_inside(*warm, *two, *a, *b, None, &mut t);
                    }
                    if debug {
                        eprintln!("{last}: {} schedules in {:?}", t.schedules - s0, t0.elapsed());
                    }
                    let v: Vec<String> = t.viol.iter().map(|(a, b)| format!("{a}\t{b}\n")).collect();
                    let out = format!("{} {} {} {} {} {}\n{}", t.scenarios, t.schedules, t.calls, t.points, t.nviol, t.capped, v.concat());
                    let mut left = out.as_bytes();
                    while !left.is_empty() {
                        let n = write(fds[1], left.as_ptr(), left.len());
                        left = &left[n as usize..];
                    }
                    _exit(0);
                }
                close(fds[1]);
                pipes.push(fds[0]);
            }
        }
    }
    for fd in pipes {
        let mut buf = vec![];
        let mut chunk = [0u8; 4096];
        unsafe {
            loop {
                let n = read(fd, chunk.as_mut_ptr(), chunk.len());
                if n <= 0 {
                    break;
                }
                buf.extend_from_slice(&chunk[..n as usize]);
            }
        }
        let text = String::from_utf8_lossy(&buf).to_string();
        let mut lines = text.lines();
        let h: Vec<u64> = lines.next().expect("worker").split(' ').map(|x| x.parse().unwrap()).collect();
        tot.scenarios += h[0];
        tot.schedules += h[1];
        tot.calls += h[2];
        tot.points += h[3];
        tot.nviol += h[4];
        tot.capped += h[5];
        for l in lines {
            let (a, b) = l.split_once('\t').unwrap();
            tot.viol.push((a.into(), b.into()));
        }
    }
    tot.viol.sort_by_key(|v| v.0.len());
    let v: Vec<String> =
        tot.viol.iter().take(20).map(|(a, b)| format!("[{},{}]", json::quote(a), json::quote(b))).collect();
    let (mut names, mut fams, mut k) = (vec![], std::collections::BTreeMap::new(), 0u64);
    let complete = counted.len() == spec.get("ops").arr().len();
    let mut count = |f, s: Scenario| {
        *fams.entry(f).or_insert(0u64) += 1;
        k += 1;
        if k.is_power_of_two() && k > 2000 {
            names.push(json::quote(&s.to_string()));
        }
        true
    };
    if complete {
        scenarios(&counted, &spec, &mut count);
        for p in &inner {
            *fams.entry(p.0).or_insert(0) += 1;
        }
    }
    let fams: Vec<String> = fams.iter().map(|(f, n)| format!("\"{f}\":{n}")).collect();
    let mut o = std::io::stdout();
    let _ = writeln!(
        o,
        "{{\"scenarios\":{},\"schedules\":{},\"calls\":{},\"points\":{},\"nviol\":{},\"capped\":{},\"violations\":[{}],\"samples\":[{}],\"families\":{{{}}}}}",
        tot.scenarios, tot.schedules, tot.calls, tot.points, tot.nviol, tot.capped, v.join(","), names.join(","), fams.join(",")
    );
}
