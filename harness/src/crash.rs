//! Crashes, hangs and memory blow-ups of the code under test. A check runs in a child process that
//! notes which case each thread is working on; when the child dies or stops making progress, the
//! parent runs those cases again, one per process, shrinks the one that fails and reports it.
use crate::engine::{self, Failure, Src};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
    fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
}
const PAGE: usize = 4096;

/// seconds of CPU time of this thread
pub fn cpu() -> f64 {
    let mut t = [0i64; 2];
    unsafe { clock_gettime(3, &mut t) };
    t[0] as f64 + t[1] as f64 * 1e-9
}

// ---- memory

thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static DELTA: Cell<i64> = const { Cell::new(0) };
    static GUARDED: Cell<bool> = const { Cell::new(false) };
}
static LIVE: AtomicI64 = AtomicI64::new(0);
static GUARDING: AtomicBool = AtomicBool::new(false);
/// more than this at once means that something never stops allocating
const CAP: i64 = 12 << 30;

pub struct Counting;

/// Bytes in use, passed on to the shared counter in steps.
#[inline]
fn live(d: i64) {
    let _ = DELTA.try_with(|x| {
        let v = x.get() + d;
        if v.unsigned_abs() < 4 << 20 {
            x.set(v);
        } else {
            x.set(0);
            if LIVE.fetch_add(v, Ordering::Relaxed) + v > CAP {
                std::process::abort();
            }
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        live(l.size() as i64);
        let _ = BYTES.try_with(|b| b.set(b.get() + l.size() as u64));
        if l.size() > GUARD_MIN && l.align() == 1 && GUARDED.try_with(|g| g.get()).unwrap_or(false) {
            return registered(l.size());
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        live(l.size() as i64);
        let _ = BYTES.try_with(|b| b.set(b.get() + l.size() as u64));
        if l.size() > GUARD_MIN && l.align() == 1 && GUARDED.try_with(|g| g.get()).unwrap_or(false) {
            return registered(l.size());
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if GUARDING.load(Ordering::Relaxed) && l.align() == 1 && (l.size() > GUARD_MIN || new > GUARD_MIN) {
            let q = self.alloc(Layout::from_size_align_unchecked(new, 1));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                self.dealloc(p, l);
            }
            return q;
        }
        live(new as i64 - l.size() as i64);
        let _ = BYTES.try_with(|b| b.set(b.get() + new.saturating_sub(l.size()) as u64));
        System.realloc(p, l, new)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        live(-(l.size() as i64));
        if l.size() > GUARD_MIN && l.align() == 1 && GUARDING.load(Ordering::Relaxed) && (p as usize + l.size()) % PAGE == 0 {
            for b in &BLOCKS {
                if b.load(Ordering::Relaxed) == p as usize {
                    b.store(0, Ordering::Relaxed);
                    let (base, len) = region(p, l.size());
                    munmap(base, len);
                    return;
                }
            }
        }
        System.dealloc(p, l)
    }
}

pub const GUARD_MIN: usize = 64 * 1024;
/// the guarded blocks that the global allocator has handed out
static BLOCKS: [AtomicUsize; 512] = [const { AtomicUsize::new(0) }; 512];

unsafe fn registered(size: usize) -> *mut u8 {
    let l = Layout::from_size_align_unchecked(size, 1);
    for b in &BLOCKS {
        if b.load(Ordering::Relaxed) == 0 && b.compare_exchange(0, 1, Ordering::Relaxed, Ordering::Relaxed).is_ok() {
            GUARDING.store(true, Ordering::Relaxed);
            let p = guarded(size);
            b.store(p as usize, Ordering::Relaxed);
            return p;
        }
    }
    System.alloc(l)
}

/// header page, the block up to the end of a page, a page that cannot be read
fn region(p: *mut u8, size: usize) -> (*mut u8, usize) {
    let body = size.div_ceil(PAGE) * PAGE;
    let base = (p as usize + size - body - PAGE) as *mut u8;
    (base, body + 2 * PAGE)
}

pub unsafe fn guarded(size: usize) -> *mut u8 {
    let body = size.div_ceil(PAGE) * PAGE;
    let base = mmap(std::ptr::null_mut(), body + 2 * PAGE, 3, 0x22, -1, 0);
    if base as isize == -1 {
        return std::ptr::null_mut();
    }
    mprotect(base.add(PAGE + body), PAGE, 0);
    base.add(PAGE + body - size)
}
pub unsafe fn unguard(p: *mut u8, size: usize) {
    let (base, len) = region(p, size);
    munmap(base, len);
}

/// Bytes allocated by this thread while `f` runs.
pub fn allocated<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let before = BYTES.with(|b| b.get());
    let r = f();
    (r, BYTES.with(|b| b.get()) - before)
}
/// Byte buffers of more than 64 KiB that this thread allocates while `f` runs end at a page that
/// cannot be read.
pub fn with_guards<T>(f: impl FnOnce() -> T) -> T {
    GUARDED.with(|g| g.set(true));
    let r = f();
    GUARDED.with(|g| g.set(false));
    r
}

// ---- notes about what each thread is doing

static NOTES: OnceLock<File> = OnceLock::new();
static TRACE: OnceLock<File> = OnceLock::new();
const SLOT: u64 = 16;

pub fn open_notes() {
    if let Some(p) = std::env::var_os("PBT_NOTES") {
        if let Ok(f) = File::options().read(true).write(true).open(p) {
            let _ = NOTES.set(f);
        }
    }
    if let Some(p) = std::env::var_os("PBT_TRACE") {
        if let Ok(f) = File::options().read(true).write(true).open(p) {
            let _ = TRACE.set(f);
        }
    }
}
/// thread `t` starts case `case` of sub check `sub` (`u32::MAX`: it has stopped)
pub fn note(t: u64, sub: u32, case: u64) {
    if let Some(f) = NOTES.get() {
        let mut b = [0u8; SLOT as usize];
        b[..4].copy_from_slice(&sub.to_le_bytes());
        b[8..].copy_from_slice(&case.to_le_bytes());
        let _ = f.write_at(&b, t * SLOT);
    }
}
pub fn trace(i: usize, v: u32) {
    if let Some(f) = TRACE.get() {
        let _ = f.write_at(&v.to_le_bytes(), i as u64 * 4);
    }
}
pub fn tracing() -> bool {
    TRACE.get().is_some()
}

/// exit code of a child whose watchdog saw a case that does not end
pub const STUCK: i32 = 98;
pub const STUCK_SECS: u64 = 30;

fn temp(name: &str) -> PathBuf {
    std::env::temp_dir().join(format!("pbt-{}-{}", std::process::id(), name))
}

enum End {
    Code(i32),
    Died(String),
    TooLong,
}

fn run(args: &[&str], envs: &[(&str, &std::ffi::OsStr)], quiet: bool, limit: Option<Duration>) -> End {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(args).stdin(Stdio::null());
    for (k, v) in envs {
        c.env(k, v);
    }
    if quiet {
        c.stdout(Stdio::null()).stderr(Stdio::null());
    }
    let mut child = match c.spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("ERROR: cannot start a child process: {}", e);
            std::process::exit(2);
        }
    };
    let t0 = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(st)) => {
                return match st.code() {
                    Some(STUCK) => End::TooLong,
                    Some(c) => End::Code(c),
                    None => End::Died(format!("signal {}", st.signal().unwrap_or(0))),
                }
            }
            Ok(None) => {}
            Err(_) => return End::Code(2),
        }
        if limit.is_some_and(|l| t0.elapsed() > l) {
            let _ = child.kill();
            let _ = child.wait();
            return End::TooLong;
        }
        let wait = if t0.elapsed() < Duration::from_millis(100) { 1 } else { 10 };
        std::thread::sleep(Duration::from_millis(wait));
    }
}

/// Run the check of `id` in a child. Returns the exit code, or the case that kills the child.
pub fn supervise(id: &str) -> Result<i32, (u32, u64, Vec<u32>, Failure)> {
    let notes = temp("notes");
    std::fs::write(&notes, [0xFFu8; 16 * SLOT as usize]).unwrap();
    let end = run(&["run", id], &[("PBT_NOTES", notes.as_os_str())], false, None);
    let slots = std::fs::read(&notes).unwrap_or_default();
    let _ = std::fs::remove_file(&notes);
    let how = match end {
        End::Code(c) => return Ok(c),
        End::Died(s) => s,
        End::TooLong => "no progress".into(),
    };
    println!("the check was stopped ({}); looking for the case", how);
    let mut cases: Vec<(u64, u32)> = slots
        .chunks(SLOT as usize)
        .filter(|b| b.len() == SLOT as usize)
        .map(|b| (u64::from_le_bytes(b[8..].try_into().unwrap()), u32::from_le_bytes(b[..4].try_into().unwrap())))
        .filter(|x| x.1 != u32::MAX)
        .collect();
    cases.sort();
    for (case, sub) in cases {
        let tr = temp("trace");
        std::fs::write(&tr, []).unwrap();
        let (s, c) = (sub.to_string(), case.to_string());
        let end = run(&["one", id, &s, &c], &[("PBT_TRACE", tr.as_os_str())], true, Some(Duration::from_secs(STUCK_SECS)));
        let choices: Vec<u32> =
            std::fs::read(&tr).unwrap_or_default().chunks_exact(4).map(|b| u32::from_le_bytes(b.try_into().unwrap())).collect();
        let _ = std::fs::remove_file(&tr);
        let (kind, message) = match end {
            End::Code(_) => continue,
            End::Died(s) => ("crash", format!("the process dies of {}", s)),
            End::TooLong => ("hang", format!("no result after {} s", STUCK_SECS)),
        };
        let best = shrink(id, sub, choices, kind);
        let f = Failure { kind: kind.into(), message, render: String::new() };
        return Err((sub, case, best, f));
    }
    eprintln!("ERROR: the check of {} was stopped ({}) and no case reproduces it", id, how);
    Ok(2)
}

fn fails(id: &str, sub: u32, choices: &[u32], kind: &str) -> bool {
    let p = temp("try");
    let b: Vec<u8> = choices.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::fs::write(&p, b).unwrap();
    let limit = Duration::from_secs(if kind == "hang" { 5 } else { 20 });
    let end = run(&["try", id, &sub.to_string(), p.to_str().unwrap()], &[], true, Some(limit));
    let _ = std::fs::remove_file(&p);
    match end {
        End::Code(_) => false,
        End::Died(_) => kind == "crash",
        End::TooLong => kind == "hang",
    }
}

fn shrink(id: &str, sub: u32, mut best: Vec<u32>, kind: &str) -> Vec<u32> {
    let t0 = Instant::now();
    let budget = Duration::from_secs(if kind == "hang" { 90 } else { 60 });
    let mut size = best.len() / 2;
    while size >= 1 && t0.elapsed() < budget {
        let mut i = 0;
        let mut progress = false;
        while i + size <= best.len() && t0.elapsed() < budget {
            let mut c = best.clone();
            c.drain(i..i + size);
            if fails(id, sub, &c, kind) {
                best = c;
                progress = true;
            } else {
                i += size;
            }
        }
        if !progress || size > 1 {
            size /= 2;
        }
    }
    for i in 0..best.len() {
        if t0.elapsed() > budget {
            break;
        }
        if best[i] != 0 {
            let mut c = best.clone();
            c[i] = 0;
            if fails(id, sub, &c, kind) {
                best = c;
            }
        }
    }
    best
}

/// Re-run a replay file whose case kills or blocks the process.
pub fn replay_dangerous(file: &str) -> End2 {
    match run(&["replay1", file], &[], false, Some(Duration::from_secs(STUCK_SECS))) {
        End::Code(c) => End2::Code(c),
        End::Died(s) => End2::Bad(format!("the process dies of {}", s)),
        End::TooLong => End2::Bad("no result".into()),
    }
}
pub enum End2 {
    Code(i32),
    Bad(String),
}

/// the text of the case `choices` make, as far as the check gets with it
pub fn last_text(id: &str, sub: u32, choices: &[u32]) -> String {
    let p = temp("try");
    let o = temp("text");
    let b: Vec<u8> = choices.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::fs::write(&p, b).unwrap();
    let _ = run(&["try", id, &sub.to_string(), p.to_str().unwrap()], &[("PBT_TEXT", o.as_os_str())], true, Some(Duration::from_secs(20)));
    let t = std::fs::read_to_string(&o).unwrap_or_default();
    let _ = std::fs::remove_file(&p);
    let _ = std::fs::remove_file(&o);
    t
}

pub fn one(f: &dyn Fn(&mut Src) -> engine::PropResult, mut src: Src) -> i32 {
    match engine::run_prop(f, &mut src) {
        Ok(_) => 0,
        Err(_) => 1,
    }
}
