//! Rust face of the simulation runtime (rt/simrt.c).
use serde::{Deserialize, Serialize};
use std::ffi::CStr;
use std::os::raw::c_char;

#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct CChoice {
    pub tid: i32,
    pub kind: i32,
    pub step: u64,
    pub val: i64,
    pub site: u64,
}
#[repr(C)]
#[derive(Clone, Copy, Default)]
struct CCfg {
    seed: u64,
    max_steps: u64,
    max_funcs: u64,
    step_ns: u64,
    fair_steps: u64,
    pct_len: u64,
    wall_base: i64,
    replay: i32,
    strategy: i32,
    starve_role: i32,
    pct_depth: u32,
    preempt_ppm: u32,
    hot_ppm: u32,
    timeskip_ppm: u32,
    spurious_ppm: u32,
    spawnfail_ppm: u32,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Disk {
    pub seed: u64,
    pub latency_ns: u64,
    pub eintr_every: u64,
    pub fail_after_bytes: i64,
    pub read_fail_after: i64,
    pub open_err: i32,
    pub open_read_err: i32,
    pub write_err: i32,
    pub close_err: i32,
    pub rename_err: i32,
    pub short_writes: i32,
    #[serde(default)]
    pub fsync_err: i32,
    /// With a crash: what was not synced may be lost.
    #[serde(default)]
    pub power: i32,
    /// The process dies at its n-th disk action (0 = never).
    #[serde(default)]
    pub crash_at: u64,
}
impl Default for Disk {
    fn default() -> Self {
        Disk {
            seed: 0,
            latency_ns: 0,
            eintr_every: 0,
            fail_after_bytes: -1,
            read_fail_after: -1,
            open_err: 0,
            open_read_err: 0,
            write_err: 0,
            close_err: 0,
            rename_err: 0,
            short_writes: 0,
            fsync_err: 0,
            power: 0,
            crash_at: 0,
        }
    }
}
type Fatal = extern "C" fn(i32, *const c_char);
unsafe extern "C" {
    fn sim_begin(cfg: *const CCfg, rep: *const CChoice, n: i32, f: Fatal);
    fn sim_end();
    fn sim_role(k: i32);
    fn sim_nopreempt(on: i32);
    fn sim_calm();
    fn sim_tid() -> i32;
    fn sim_active() -> i32;
    fn sim_seq() -> u64;
    fn sim_now() -> i64;
    fn sim_user_point();
    fn sim_wall_jump(d: i64);
    fn sim_get_count(c: i32) -> u64;
    fn sim_quiesce() -> i32;
    fn sim_live(role: i32) -> i32;
    fn sim_describe(b: *mut c_char, n: usize);
    fn sim_records(out: *mut *const CChoice) -> i32;
    fn sim_hash() -> u64;
    fn sim_switches() -> u64;
    fn sim_threads() -> u64;
    fn sim_funcs() -> u64;
    fn sim_func_cov() -> i32;
    fn sim_func_cov_map() -> *const u8;
    fn sim_disk_reset(d: *const Disk);
    fn sim_disk_faults(d: *const Disk);
    fn sim_disk_put(p: *const c_char, d: *const u8, n: usize) -> i32;
    fn sim_disk_get(p: *const c_char, d: *mut *const u8) -> i64;
    fn sim_disk_ops() -> u64;
    fn sim_disk_path(n: i32) -> *const c_char;
    fn sim_on_exit(f: extern "C" fn(i32));
    fn sim_set_args(a: *const *const c_char, n: i32) -> i32;
    fn sim_capture(on: i32);
    fn sim_image_base() -> *const u8;
    fn sim_malloc(n: usize, al: usize) -> *mut u8;
    fn sim_free(p: *mut u8, n: usize);
    fn sim_realloc(p: *mut u8, old: usize, al: usize, n: usize) -> *mut u8;
    fn sim_heap_live() -> i64;
    fn sim_heap_reset(live: i64, blocks: i64);
    fn sim_heap_blocks() -> i64;
}

pub const ROLE_CLIENT: i32 = 4;
pub const ROLE_BACKGROUND: i32 = 3;

/// How schedules and faults are drawn in one run (chosen by the plan generator).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct Sched {
    pub seed: u64,
    /// 0 = never preempt, 1 = random, 2 = PCT priorities.
    pub strategy: i32,
    pub preempt_ppm: u32,
    pub hot_ppm: u32,
    pub pct_depth: u32,
    pub pct_len: u64,
    pub timeskip_ppm: u32,
    pub spurious_ppm: u32,
    pub spawnfail_ppm: u32,
    pub starve_role: i32,
    pub max_steps: u64,
    pub max_funcs: u64,
    pub step_ns: u64,
}
impl Default for Sched {
    fn default() -> Self {
        Sched {
            seed: 1,
            strategy: 0,
            preempt_ppm: 0,
            hot_ppm: 0,
            pct_depth: 0,
            pct_len: 0,
            timeskip_ppm: 0,
            spurious_ppm: 0,
            spawnfail_ppm: 0,
            starve_role: -1,
            max_steps: 30_000_000,
            max_funcs: 400_000_000,
            step_ns: 20,
        }
    }
}

/// One recorded deviation from the default schedule (or one injected fault).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Choice {
    pub thread: i32,
    pub step: u64,
    pub kind: String,
    pub value: i64,
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub at: String,
}
const KINDS: [&str; 7] = ["", "preempt-to", "next-after-block", "wake-waiter", "spurious-wakeup", "thread-create-fails", "pick"];
fn kind_of(s: &str) -> i32 {
    KINDS.iter().position(|k| *k == s).unwrap_or(0) as i32
}

static mut FATAL: Option<fn(i32, &str)> = None;
extern "C" fn on_fatal(kind: i32, msg: *const c_char) {
    let s = unsafe { CStr::from_ptr(msg) }.to_string_lossy().into_owned();
    let f = unsafe { FATAL };
    if let Some(f) = f {
        f(kind, &s)
    }
}
pub fn begin(s: &Sched, replay: Option<&[Choice]>, fatal: fn(i32, &str)) {
    unsafe { FATAL = Some(fatal) };
    let cfg = CCfg {
        seed: s.seed,
        max_steps: s.max_steps,
        max_funcs: s.max_funcs,
        step_ns: s.step_ns,
        fair_steps: 100_000,
        pct_len: s.pct_len,
        wall_base: 1_700_000_000_000_000_000,
        replay: replay.is_some() as i32,
        strategy: s.strategy,
        starve_role: s.starve_role,
        pct_depth: s.pct_depth,
        preempt_ppm: s.preempt_ppm,
        hot_ppm: s.hot_ppm,
        timeskip_ppm: s.timeskip_ppm,
        spurious_ppm: s.spurious_ppm,
        spawnfail_ppm: s.spawnfail_ppm,
    };
    let rep: Vec<CChoice> = replay
        .unwrap_or(&[])
        .iter()
        .map(|c| CChoice { tid: c.thread, kind: kind_of(&c.kind), step: c.step, val: c.value, site: 0 })
        .collect();
    unsafe {
        sim_disk_reset(&Disk::default());
        sim_begin(&cfg, rep.as_ptr(), rep.len() as i32, on_fatal)
    }
}
pub fn end() {
    unsafe { sim_end() }
}
pub fn role(k: i32) {
    unsafe { sim_role(k) }
}
pub fn tid() -> i32 {
    unsafe { sim_tid() }
}
pub fn active() -> bool {
    unsafe { sim_active() != 0 }
}
/// Global event sequence number (strictly increasing along the execution).
pub fn seq() -> u64 {
    point();
    unsafe { sim_seq() }
}
pub fn steps() -> u64 {
    unsafe { sim_seq() }
}
pub fn now() -> i64 {
    unsafe { sim_now() }
}
pub fn point() {
    unsafe { sim_user_point() }
}
pub fn wall_jump(d: i64) {
    unsafe { sim_wall_jump(d) }
}
/// Run `f` without any preemption (for oracle code that must not perturb or be perturbed).
pub fn atomically<T>(f: impl FnOnce() -> T) -> T {
    unsafe { sim_nopreempt(1) };
    let r = f();
    unsafe { sim_nopreempt(0) };
    r
}
/// For oracle code at the end of a run: from here on threads switch only when they block.
pub fn calm() {
    unsafe { sim_calm() };
}
/// Let every other thread run until it is blocked for good or finished.
pub fn quiesce() -> i32 {
    unsafe { sim_quiesce() }
}
pub fn live(role: i32) -> i32 {
    unsafe { sim_live(role) }
}
pub fn describe() -> String {
    let mut b = vec![0u8; 4096];
    unsafe { sim_describe(b.as_mut_ptr() as *mut c_char, b.len()) };
    CStr::from_bytes_until_nul(&b).map(|c| c.to_string_lossy().into_owned()).unwrap_or_default()
}
pub fn records() -> Vec<Choice> {
    let mut p: *const CChoice = std::ptr::null();
    let n = unsafe { sim_records(&mut p) }.unsigned_abs() as usize;
    let s = unsafe { std::slice::from_raw_parts(p, n) };
    s.iter()
        .map(|c| Choice {
            thread: c.tid,
            step: c.step,
            kind: KINDS.get(c.kind as usize).unwrap_or(&"").to_string(),
            value: c.val,
            at: if c.site == 0 { String::new() } else { format!("0x{:x}", c.site) },
        })
        .collect()
}
pub const COUNTERS: [&str; 14] = [
    "preemptions",
    "blocking_waits",
    "virtual_time_skips",
    "spurious_wakeups",
    "thread_create_failures",
    "sleeps",
    "clock_reads",
    "random_draws",
    "io_errors",
    "short_writes",
    "short_reads",
    "eintr",
    "wall_clock_jumps",
    "threads",
];
pub fn counters() -> Vec<(String, u64)> {
    COUNTERS.iter().enumerate().map(|(i, n)| (n.to_string(), unsafe { sim_get_count(i as i32) })).collect()
}
pub struct RunStats {
    pub hash: u64,
    pub steps: u64,
    pub switches: u64,
    pub threads: u64,
    pub funcs: u64,
    pub cov: i32,
    pub now: i64,
}
pub fn run_stats() -> RunStats {
    unsafe {
        RunStats {
            hash: sim_hash(),
            steps: sim_seq(),
            switches: sim_switches(),
            threads: sim_threads(),
            funcs: sim_funcs(),
            cov: sim_func_cov(),
            now: sim_now(),
        }
    }
}
pub fn func_cov_bits() -> Vec<u16> {
    let m = unsafe { std::slice::from_raw_parts(sim_func_cov_map(), 65536) };
    m.iter().enumerate().filter(|(_, b)| **b != 0).map(|(i, _)| i as u16).collect()
}
pub fn disk_faults(d: &Disk) {
    unsafe { sim_disk_faults(d) }
}
pub fn disk_put(path: &str, data: &[u8]) {
    let p = std::ffi::CString::new(path).unwrap();
    unsafe { sim_disk_put(p.as_ptr(), data.as_ptr(), data.len()) };
}
pub fn disk_get(path: &str) -> Option<Vec<u8>> {
    let p = std::ffi::CString::new(path).unwrap();
    let mut d: *const u8 = std::ptr::null();
    let n = unsafe { sim_disk_get(p.as_ptr(), &mut d) };
    if n < 0 { None } else if n == 0 { Some(vec![]) } else { Some(unsafe { std::slice::from_raw_parts(d, n as usize) }.to_vec()) }
}
pub fn disk_files() -> Vec<String> {
    let mut v = vec![];
    loop {
        let p = unsafe { sim_disk_path(v.len() as i32) };
        if p.is_null() {
            return v;
        }
        v.push(unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned());
    }
}
pub fn disk_ops() -> u64 {
    unsafe { sim_disk_ops() }
}
pub fn image_base() -> u64 {
    unsafe { sim_image_base() as u64 }
}

/// The program's allocator: counts what is allocated (the runtime is not instrumented).
pub struct Heap;
unsafe impl std::alloc::GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        unsafe { sim_malloc(l.size(), l.align()) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        unsafe { sim_free(p, l.size()) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        unsafe { sim_realloc(p, l.size(), l.align(), n) }
    }
}
/// Run harness code (without a scheduling point in it) whose allocations do not count.
pub fn uncounted<T>(f: impl FnOnce() -> T) -> T {
    let (live, blocks) = heap();
    let r = f();
    unsafe { sim_heap_reset(live, blocks) };
    r
}
/// Bytes and blocks allocated at present.
pub fn heap() -> (i64, i64) {
    unsafe { (sim_heap_live(), sim_heap_blocks()) }
}

/// Make the process a simulated program: its arguments, its output (found as
/// `/simdisk/.stdout` and `/simdisk/.stderr`), and what happens when it exits or crashes (-1).
pub fn program(args: &[&str], on_exit: extern "C" fn(i32)) {
    let v: Vec<std::ffi::CString> = args.iter().map(|a| std::ffi::CString::new(*a).unwrap()).collect();
    let p: Vec<*const c_char> = v.iter().map(|a| a.as_ptr()).collect();
    unsafe {
        assert_eq!(sim_set_args(p.as_ptr(), p.len() as i32), 0);
        sim_on_exit(on_exit);
        sim_capture(1);
    }
}
pub fn end_program() {
    unsafe { sim_capture(0) }
}
