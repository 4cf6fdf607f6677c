//! One simulated run, in its own forked process.
use crate::plan::{Plan, Request, Response};
use crate::{sim, zygote};
use std::cell::UnsafeCell;

/// State shared by the simulated threads of a run. Only one of them runs at a
/// time and none of these accesses contains a scheduling point.
pub struct SimCell<T>(UnsafeCell<T>);
unsafe impl<T> Sync for SimCell<T> {}
unsafe impl<T> Send for SimCell<T> {}
impl<T> SimCell<T> {
    pub const fn new(v: T) -> Self {
        SimCell(UnsafeCell::new(v))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}
pub type Check = Result<(), Viol>;
pub fn viol<T>(class: impl Into<String>, detail: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { class: class.into(), detail: detail.into() })
}

#[derive(Default)]
struct Global {
    trace: Option<Vec<String>>,
    log_hash: u64,
    panic: Option<String>,
    known: Vec<String>,
    expect_panic: bool,
    want_choices: bool,
    cov: bool,
    notes: Vec<(String, u64)>,
    first: Option<Viol>,
}
static G: SimCell<Option<Global>> = SimCell::new(None);
fn g() -> &'static mut Global {
    G.get().as_mut().unwrap()
}
/// Append to the run's event log (hashed always, kept when tracing).
pub fn log(s: impl FnOnce() -> String) {
    let g = g();
    let line = s();
    g.log_hash = crate::rng::mix(g.log_hash, crate::rng::hash_str(&line));
    if let Some(t) = g.trace.as_mut() {
        sim::uncounted(|| t.push(format!("[step {} t={}us T{}] {line}", sim::steps(), sim::now() / 1000, sim::tid())));
    }
}
/// Record the first violation found by an invariant inside a thread or callback.
pub fn flag(class: impl Into<String>, detail: impl Into<String>) {
    let g = g();
    if g.first.is_none() {
        g.first = Some(Viol { class: class.into(), detail: detail.into() });
    }
}
pub fn flagged() -> Option<Viol> {
    g().first.clone()
}
/// Count something for the evidence file (for example injected faults of one kind).
pub fn count(name: &str, n: u64) {
    let v = &mut g().notes;
    match v.iter_mut().find(|x| x.0 == name) {
        Some(x) => x.1 += n,
        None => sim::uncounted(|| v.push((name.to_string(), n))),
    }
}
pub fn strip_digits(s: &str) -> String {
    let mut o = String::new();
    let mut last = false;
    for c in s.chars() {
        if c.is_ascii_digit() {
            if !last {
                o.push('#')
            }
            last = true;
        } else {
            o.push(c);
            last = false;
        }
    }
    o
}
fn respond(v: Option<Viol>) -> Response {
    let g = g();
    let st = sim::run_stats();
    let mut counters: std::collections::BTreeMap<String, u64> = sim::counters().into_iter().collect();
    for (n, k) in &g.notes {
        *counters.entry(n.clone()).or_insert(0) += k;
    }
    let bad = v.is_some();
    let (class, detail) = v.map(|v| (v.class, v.detail)).unwrap_or_default();
    Response {
        verdict: if bad { "violation" } else { "ok" }.into(),
        class,
        detail,
        known: g.known.clone(),
        hash: st.hash,
        log_hash: g.log_hash,
        steps: st.steps,
        switches: st.switches,
        threads: st.threads,
        funcs: st.funcs,
        virtual_ns: st.now,
        counters,
        cov: if g.cov { sim::func_cov_bits() } else { vec![] },
        choices: if bad || g.want_choices { sim::records() } else { vec![] },
        trace: g.trace.take().unwrap_or_default(),
    }
}
fn on_fatal(kind: i32, msg: &str) {
    // Runs on whichever thread exhausted the run; the simulation is over.
    if kind == 3 {
        zygote::finish(&Response::internal(msg));
    }
    let msg = msg.to_string();
    log(|| format!("FATAL {msg}"));
    let v = if let Some(v) = flagged() {
        v
    } else if kind == 1 {
        Viol { class: "deadlock: no thread can run".into(), detail: msg }
    } else {
        Viol { class: "no progress within the step bound".into(), detail: msg }
    };
    zygote::finish(&respond(Some(v)));
}
/// Panics inside `f` become an error carrying the message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    g().expect_panic = false;
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(g().panic.take().unwrap_or_else(|| "panic".into())),
    }
}
pub fn panic_viol(m: String) -> Viol {
    Viol { class: format!("panic in {}", strip_digits(m.split(" @ ").nth(1).unwrap_or("?").split(':').next().unwrap_or("?"))), detail: m }
}
/// The last panic anywhere, even on a thread of the library, which swallows it.
pub fn panicked() -> Option<String> {
    g().panic.clone()
}
/// Start a simulated thread running `f`; a panic in it is a violation.
pub fn spawn(role: i32, f: impl FnOnce() + Send + 'static) -> std::thread::JoinHandle<()> {
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            sim::role(role);
            if let Err(m) = guarded(f) {
                let v = panic_viol(m);
                flag(v.class, v.detail);
            }
        })
        .expect("spawn")
}

/// End the run from a simulated program.
pub fn finish(r: Check) -> ! {
    sim::end();
    let v = match r {
        Err(v) => Some(v),
        Ok(()) => flagged(),
    };
    log(|| format!("END {:?}", v.as_ref().map(|v| &v.class)));
    zygote::finish(&respond(v))
}

pub fn child(req: Request) -> ! {
    *G.get() = Some(Global {
        trace: req.trace.then(Vec::new),
        cov: req.cov,
        want_choices: req.trace,
        ..Default::default()
    });
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("DST_STDERR").is_ok() {
            eprintln!("panic: {m} @ {loc}");
        }
        let g = g();
        g.panic = Some(format!("{m} @ {loc}"));
    }));
    let Request { plan, replay, .. } = req;
    let plan: &'static Plan = Box::leak(Box::new(plan));
    sim::begin(&plan.sched, replay.as_deref(), on_fatal);
    let r = guarded(|| crate::props::run(plan));
    finish(r.map_err(panic_viol).and_then(|r| r))
}
