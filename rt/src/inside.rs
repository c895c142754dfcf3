//! Preemption inside calls, between machine instructions. Every instruction of the program that works
//! on memory shared between threads (LOCK prefix or XCHG, or an operand in the writable static data) is
//! a breakpoint. At each one a call meets, the process forks: in the fork another thread makes its
//! call there (or waits for a lock the first one holds), itself preempted in favour of the first at one
//! of its own breakpoints if wanted; then the first goes on. Both have to give the results they
//! give alone, and once more when they are made again.

use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering::SeqCst};
use std::sync::OnceLock;

extern "C" {
    fn fork() -> i32;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn _exit(code: i32) -> !;
    fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
    pub fn gettid() -> i32;
    fn sched_yield() -> i32;
    fn usleep(us: u32) -> i32;
    fn open(name: *const u8, flags: i32, ...) -> i32;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn __errno_location() -> *mut i32;
    fn mprotect(at: *mut u8, len: usize, prot: i32) -> i32;
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

struct Image {
    code: (u64, u64),
    /// breakpoints and the bytes there
    at: Vec<(u64, u8)>,
}
static IMAGE: OnceLock<Image> = OnceLock::new();

/// Finds the instructions of the program that work on shared memory. To be called before any fork.
pub fn prepare() {
    let exe = std::fs::read_link("/proc/self/exe").unwrap();
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    let mut im = Image { code: (0, 0), at: vec![] };
    let mut data: Vec<(u64, u64)> = vec![];
    let (mut last, mut base) = ((0, false), 0);
    for l in maps.lines() {
        let mut w = l.split_whitespace();
        let (a, b) = w.next().unwrap().split_once('-').unwrap();
        let (a, b) = (u64::from_str_radix(a, 16).unwrap(), u64::from_str_radix(b, 16).unwrap());
        let perm = w.next().unwrap();
        let path = w.nth(3);
        let ours = path.is_some_and(|p| std::path::Path::new(p) == exe);
        if ours && base == 0 {
            base = a;
        }
        if ours && perm.contains('x') {
            im.code = (a, b);
        }
        let bss = path.is_none() && last == (a, true);
        if perm.starts_with("rw") && (ours || bss) {
            data.push((a, b));
        }
        last = (b, ours || bss);
    }
    assert!(im.code.1 > 0 && !data.is_empty());
    let dis = std::process::Command::new("objdump").args(["-d", "-w", "--no-show-raw-insn", "-j", ".text"]).arg(&exe).output().expect("objdump");
    let mut own = true;
    for l in String::from_utf8_lossy(&dis.stdout).lines() {
        if !l.starts_with(' ') {
            // not the harness itself
            if let Some((_, name)) = l.split_once(" <") {
                own = name.contains("3vrt");
            }
        } else if !own {
            if let Some(at) = l.split_once(':').and_then(|(a, _)| u64::from_str_radix(a.trim(), 16).ok()) {
                let at = base + at;
                if at >= im.code.0 && at < im.code.1 && unsafe { shared(at, &data) } {
                    im.at.push((at, unsafe { *(at as *const u8) }));
                }
            }
        }
    }
    assert!(im.at.len() > 100, "no instructions found");
    if std::env::var("HIST_DEBUG").is_ok() {
        eprintln!("{} breakpoints", im.at.len());
    }
    let _ = IMAGE.set(im);
}
/// Whether the instruction at `at` works on memory that other threads see too.
unsafe fn shared(at: u64, data: &[(u64, u64)]) -> bool {
    let p = at as *const u8;
    let mut i = 0;
    let (mut lock, mut tls) = (false, false);
    loop {
        match *p.add(i) {
            0xF0 => lock = true,
            0x64 | 0x65 => tls = true,
            0x66 | 0x67 | 0xF2 | 0xF3 | 0x2E | 0x36 | 0x3E | 0x26 => {}
            _ => break,
        }
        i += 1;
    }
    if lock {
        return true;
    }
    if tls {
        return false;
    }
    if *p.add(i) & 0xF0 == 0x40 {
        i += 1;
    }
    let op = *p.add(i);
    // bytes of immediate operands, to find where the instruction ends
    let (modrm_at, imm) = match op {
        0x0F => {
            let op2 = *p.add(i + 1);
            match op2 {
                0x38 => (i + 3, 0),
                0x3A => (i + 3, 1),
                0x05..=0x09 | 0x0B | 0x30..=0x37 | 0x77 | 0x80..=0x8F | 0xA0..=0xA2 | 0xA8..=0xAA | 0xC8..=0xCF => return false,
                0x70..=0x73 | 0xA4 | 0xAC | 0xBA | 0xC2 | 0xC4..=0xC6 => (i + 2, 1),
                _ => (i + 2, 0),
            }
        }
        0x00..=0x3F if op & 7 < 4 => (i + 1, 0),
        0x63 | 0x84..=0x8F | 0xD0..=0xD3 | 0xD8..=0xDF | 0xFE | 0xFF => (i + 1, 0),
        0x69 | 0x81 | 0xC7 => (i + 1, 4),
        0x6B | 0x80 | 0x82 | 0x83 | 0xC0 | 0xC1 | 0xC6 => (i + 1, 1),
        0xF6 => (i + 1, if *p.add(i + 1) & 0x38 < 0x10 { 1 } else { 0 }),
        0xF7 => (i + 1, if *p.add(i + 1) & 0x38 < 0x10 { 4 } else { 0 }),
        0xC5 => (i + 3, 0),
        0xC4 => (i + 4, 0),
        _ => return false,
    };
    let modrm = *p.add(modrm_at);
    if matches!(op, 0x86 | 0x87) && modrm >> 6 != 3 {
        return true;
    }
    if modrm & 0xC7 != 0x05 {
        return false;
    }
    let disp = std::ptr::read_unaligned(p.add(modrm_at + 1) as *const i32) as i64;
    // the length of the immediate is off by a little for 16-bit operands: of no importance
    let to = (at as i64 + modrm_at as i64 + 5 + imm + disp) as u64;
    data.iter().any(|(a, b)| (*a..*b).contains(&to))
}
#[inline(never)]
unsafe fn patch(on: bool) {
    for (a, b) in &IMAGE.get().unwrap_unchecked().at {
        std::ptr::write_volatile(*a as *mut u8, if on { 0xCC } else { *b });
    }
    PATCHED.store(on, SeqCst);
}
/// From now on breakpoints only vanish when they are met.
unsafe fn release() {
    GONE.store(0, SeqCst);
    PATCHED.store(false, SeqCst);
}
/// Those that have vanished since come back.
unsafe fn come_back() {
    for k in 0..GONE.load(SeqCst).min(MET.len() as u64) {
        std::ptr::write_volatile(MET[k as usize].load(SeqCst) as *mut u8, 0xCC);
    }
    PATCHED.store(true, SeqCst);
}
#[inline(never)]
unsafe fn original(at: u64) -> Option<u8> {
    let im = &IMAGE.get().unwrap_unchecked().at;
    let (mut a, mut b) = (0, im.len());
    while a < b {
        let m = (a + b) / 2;
        match im[m].0 {
            x if x == at => return Some(im[m].1),
            x if x < at => a = m + 1,
            _ => b = m,
        }
    }
    None
}

// one process, so plain numbers would do: these are only handed from thread to thread
static POINTS: AtomicU64 = AtomicU64::new(0);
static SCHEDULES: AtomicU64 = AtomicU64::new(0);
static WAITED: AtomicU64 = AtomicU64::new(0);
static BADS: AtomicU64 = AtomicU64::new(0);
static STEPPING: AtomicU64 = AtomicU64::new(0);
/// the schedule asked for
static ONLY: AtomicU64 = AtomicU64::new(ALL);
static ONLY2: AtomicU64 = AtomicU64::new(ALL);
static TWO: AtomicBool = AtomicBool::new(false);
static PIPE: AtomicI32 = AtomicI32::new(-1);
// in the fork
static BRANCH: AtomicBool = AtomicBool::new(false);
static FIRST_DONE: AtomicBool = AtomicBool::new(false);
static DONE: AtomicBool = AtomicBool::new(false);
static ASLEEP: AtomicBool = AtomicBool::new(false);
static TID: AtomicI32 = AtomicI32::new(0);
static FIRST_TID: AtomicI32 = AtomicI32::new(0);
/// the point of the second thread at which the first goes on, and those seen so far
static AT2: AtomicU64 = AtomicU64::new(ALL);
static POINTS2: AtomicU64 = AtomicU64::new(0);
/// the second thread has handed over to the first
static HANDED: AtomicBool = AtomicBool::new(false);
static GONE: AtomicU64 = AtomicU64::new(0);
static MET: [AtomicU64; 4096] = [const { AtomicU64::new(0) }; 4096];
static NEVER: AtomicBool = AtomicBool::new(false);
static READY: AtomicBool = AtomicBool::new(false);
static PATCHED: AtomicBool = AtomicBool::new(false);
static ONE: AtomicBool = AtomicBool::new(false);
static OTHER: OnceLock<Box<dyn Fn() + Send + Sync>> = OnceLock::new();
const ALL: u64 = u64::MAX;

fn say(s: String) {
    unsafe { write(PIPE.load(SeqCst), s.as_ptr(), s.len()) };
}
extern "C" fn trap(_: i32, _: *mut u8, uc: *mut u8) {
    unsafe {
        let regs = uc.add(40) as *mut u64;
        let errno = *__errno_location();
        let step = STEPPING.load(SeqCst);
        if step != 0 {
            // the instruction of the breakpoint is done
            if PATCHED.load(SeqCst) {
                std::ptr::write_volatile(step as *mut u8, 0xCC);
            }
            STEPPING.store(0, SeqCst);
            *regs.add(17) &= !0x100;
            return;
        }
        let at = *regs.add(16) - 1;
        let Some(byte) = original(at) else { _exit(77) };
        let mut go_on = true;
        if !PATCHED.load(SeqCst) {
            let n = GONE.fetch_add(1, SeqCst) as usize;
            if n < MET.len() {
                MET[n].store(at, SeqCst);
            }
            std::ptr::write_volatile(at as *mut u8, byte);
            go_on = false;
        } else if BRANCH.load(SeqCst) {
            let m = POINTS2.fetch_add(1, SeqCst);
            if m == AT2.load(SeqCst) {
                release();
                std::ptr::write_volatile(at as *mut u8, byte);
                go_on = false;
                HANDED.store(true, SeqCst);
                wait_for(&FIRST_DONE, &NEVER, &FIRST_TID);
            }
        } else {
            go_on = !fork_here();
            if !go_on {
                std::ptr::write_volatile(at as *mut u8, byte);
            }
        }
        *regs.add(16) = at;
        if go_on {
            std::ptr::write_volatile(at as *mut u8, byte);
            STEPPING.store(at, SeqCst);
            *regs.add(17) |= 0x100;
        }
        *__errno_location() = errno;
    }
}
/// Whether the thread waits for something. (Nothing but the C library is called here.)
#[inline(never)]
pub unsafe fn sleeps(tid: i32) -> bool {
    let mut name = *b"/proc/self/task/0000000000/stat\0";
    let mut n = tid;
    for k in (16..26).rev() {
        name[k] = b'0' + (n % 10) as u8;
        n /= 10;
    }
    // no leading zeros in the name
    let lead = (16..25).take_while(|k| name[*k] == b'0').count();
    for k in 16..name.len() - lead {
        name[k] = name[k + lead];
    }
    let fd = open(name.as_ptr(), 0);
    if fd < 0 {
        return false;
    }
    let mut buf = [0u8; 256];
    let n = read(fd, buf.as_mut_ptr(), 256);
    close(fd);
    let (mut k, mut state) = (0, 0);
    while k + 2 < n {
        if buf[k as usize] == b')' {
            state = buf[k as usize + 2];
        }
        k += 1;
    }
    state == b'S'
}
/// Until `done`, or until that thread waits for something.
#[inline(never)]
unsafe fn wait_for(done: &AtomicBool, handed: &AtomicBool, tid: &AtomicI32) {
    let mut asleep = 0;
    while !done.load(SeqCst) && !handed.load(SeqCst) {
        sched_yield();
        let tid = tid.load(SeqCst);
        if tid == 0 {
            continue;
        }
        asleep = if sleeps(tid) { asleep + 1 } else { 0 };
        if asleep > 3 {
            release();
            ASLEEP.store(true, SeqCst);
            return;
        }
        if asleep > 0 {
            usleep(100);
        }
    }
}
/// At a breakpoint of the first call; returns true in the forks.
#[inline(never)]
unsafe fn fork_here() -> bool {
    let k = POINTS.fetch_add(1, SeqCst);
    let one = ONE.load(SeqCst);
    if (one && ONLY.load(SeqCst) != k) || BADS.load(SeqCst) >= 2 {
        return false;
    }
    // the other thread's whole call, then preempted at each of its own points
    let mut m = match () {
        _ if one => ONLY2.load(SeqCst),
        _ if TWO.load(SeqCst) => 0,
        _ => ALL,
    };
    let mut hung = 0;
    loop {
        let pid = fork();
        if pid == 0 {
            release();
            BRANCH.store(true, SeqCst);
            alarm(20);
            FIRST_TID.store(gettid(), SeqCst);
            AT2.store(m, SeqCst);
            second(m);
            return true;
        }
        let mut status = 0;
        waitpid(pid, &mut status, 0);
        SCHEDULES.fetch_add(1, SeqCst);
        let code = status >> 8 & 0xff;
        // calls that do not return have to do so three times
        if status & 0x7f == 14 && hung < 2 {
            hung += 1;
            continue;
        }
        hung = 0;
        if status & 0x7f != 0 || !matches!(code, 1 | 8 | 10 | 12 | 14) {
            release();
            let why = match status & 0x7f {
                14 => "the calls do not return (deadlock)".into(),
                0 => format!("the process ended with {code}"),
                s => format!("the process was ended by signal {s}"),
            };
            say(format!("B {k},{m} {why}\n"));
            come_back();
            BADS.fetch_add(1, SeqCst);
        } else if code == 1 {
            BADS.fetch_add(1, SeqCst);
        } else if code & 2 != 0 {
            WAITED.fetch_add(1, SeqCst);
        }
        // 4: the second call ended before its point m
        if m == ALL || one || BADS.load(SeqCst) >= 2 {
            return false;
        }
        m = if code & 4 != 0 { return false } else { m + 1 };
    }
}
/// In the fork: the other thread's call, until it is done, waits, or hands over.
unsafe fn second(m: u64) {
    drop(std::thread::spawn(move || {
        TID.store(gettid(), SeqCst);
        while !READY.load(SeqCst) {
            sched_yield();
        }
        if m != ALL {
            come_back();
        }
        (OTHER.get().unwrap_unchecked())();
        release();
        DONE.store(true, SeqCst);
    }));
    READY.store(true, SeqCst);
    wait_for(&DONE, &HANDED, &TID);
}

/// Explores the preemptions of `first`; `second` is the other thread's call, `again` what comes after both; `two`:
/// `second` is preempted as well. Writes a line "B k,m what" for each failing schedule and "P points schedules waited"
/// at the end to the pipe.
pub fn explore(pipe: i32, only: Option<(u64, u64)>, two: bool, first: &dyn Fn(), second: Box<dyn Fn() + Send + Sync>, again: &dyn Fn(), bad: &dyn Fn() -> Vec<String>) -> ! {
    unsafe {
        let im = IMAGE.get().unwrap();
        let _ = OTHER.set(second);
        PIPE.store(pipe, SeqCst);
        TWO.store(two, SeqCst);
        if let Some((k, m)) = only {
            ONLY.store(k, SeqCst);
            ONLY2.store(m, SeqCst);
        }
        ONE.store(only.is_some(), SeqCst);
        let sa = SigAction { handler: trap as extern "C" fn(i32, *mut u8, *mut u8) as usize, mask: [0; 16], flags: 0x4000_0004, restorer: 0 };
        assert_eq!(sigaction(5, &sa, std::ptr::null_mut()), 0);
        assert_eq!(mprotect(im.code.0 as *mut u8, (im.code.1 - im.code.0) as usize, 7), 0);
        alarm(400);
        patch(true);
        first();
        if !BRANCH.load(SeqCst) {
            release();
        } else {
            FIRST_DONE.store(true, SeqCst);
            while !DONE.load(SeqCst) {
                usleep(100);
            }
            again();
            let b = bad();
            if !b.is_empty() {
                let t: String = b.join("; ").chars().take(600).collect();
                say(format!("B {},{} {}\n", POINTS.load(SeqCst) - 1, AT2.load(SeqCst), t.replace('\n', " ")));
                _exit(1);
            }
            _exit(8 + if ASLEEP.load(SeqCst) { 2 } else { 0 } + if POINTS2.load(SeqCst) <= AT2.load(SeqCst) { 4 } else { 0 });
        }
        for b in bad() {
            say(format!("B , {}\n", b));
        }
        say(format!("P {} {} {}\n", POINTS.load(SeqCst), SCHEDULES.load(SeqCst), WAITED.load(SeqCst)));
        _exit(0);
    }
}
