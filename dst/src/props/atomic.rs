//! A call that fails has no effect.
use crate::dump::{self, Dump};
use crate::exec::{Client, Out};
use crate::gen_ops::{self, Mix};
use crate::plan::{Op, Plan};
use crate::rng::Rng;
use crate::run::{Check, SimCell, count, log, viol};
use crate::sim;
use text_document::*;

/// Counts down to the write action that fails.
#[derive(Default)]
pub struct Fault {
    left: u32,
    seen: u32,
    pub fired: Option<&'static str>,
}
static FAULT: SimCell<Option<Fault>> = SimCell::new(None);
#[unsafe(no_mangle)]
fn text_document_sim_fault(site: &'static str) -> bool {
    match FAULT.get() {
        Some(f) => {
            f.seen += 1;
            if f.left > 0 {
                f.left -= 1;
                if f.left == 0 {
                    f.fired = Some(site);
                    return true;
                }
            }
            false
        }
        None => false,
    }
}
pub fn armed<T>(n: u32, f: impl FnOnce() -> T) -> (T, Fault) {
    *FAULT.get() = Some(Fault { left: n, ..Default::default() });
    let r = f();
    (r, FAULT.get().take().unwrap())
}

pub fn generate(r: &mut Rng, p: &mut Plan) {
    let mut m: Mix = super::consistency::mix_for(r);
    m.meta = 1;
    p.setup = gen_ops::origin(r, 4);
    let n = r.range(2, 12);
    let mut st = gen_ops::steps(r, &m, 2, n);
    for s in st.iter_mut() {
        if r.chance(1, 12) {
            // Calls that fail by themselves, if anything is selected or not.
            s.op = match r.below(4) {
                0 => Op::InsertHtml { c: r.below(2), text: String::new() },
                1 => Op::InsertPlainFragment { c: r.below(2), text: String::new() },
                2 => Op::RemoveListItem { c: 0, index: 7 },
                _ => Op::Replace { query: "(".into(), with: "x".into(), all: true, case: true, regex: true },
            };
        }
        if r.chance(1, 25) {
            s.op = if r.chance(1, 2) { Op::StartMarkdown { text: gen_ops::markdown(r, false) } } else { Op::StartHtml { text: gen_ops::html(r, false) } };
        }
        if r.chance(2, 5) {
            let far = *r.pick(&[2, 5, 12, 30]);
            s.fail_at = r.range(1, far) as u32;
        }
    }
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 2) {
            let a = r.below(st.len() + 1);
            let b = (a + r.range(0, 5)).min(st.len());
            st.insert(b, Op::EndEdit { c: r.below(2) }.into());
            st.insert(a, Op::BeginEdit { c: r.below(2) }.into());
        }
    }
    p.threads = vec![st];
}
fn name(o: &Op) -> String {
    format!("{o:?}").split([' ', '{']).next().unwrap().to_string()
}
struct Side {
    doc: TextDocument,
    c: Client,
}
impl Side {
    fn new() -> Side {
        let doc = TextDocument::new();
        Side { c: Client::new(doc.clone(), 2), doc }
    }
    /// Imports are waited for.
    fn exec(&mut self, op: &Op) -> Out {
        let o = self.c.exec(op);
        match op {
            Op::StartMarkdown { .. } | Op::StartHtml { .. } if o.ok => {
                let o = self.c.exec(&Op::OpWait { o: self.c.ops.len() - 1 });
                sim::quiesce();
                o
            }
            _ => o,
        }
    }
    fn dump(&self) -> Dump {
        let mut d = dump::content(&self.doc, &["pic".to_string(), "img2".to_string()]);
        d.sections.push(("flags", vec![dump::flags(&self.doc), self.doc.is_modified().to_string()]));
        d.sections.push(("cursors", self.c.cursors.iter().flatten().map(|k| format!("{} {}", k.position(), k.anchor())).collect()));
        d
    }
}
pub fn run(plan: &'static Plan) -> Check {
    // `a` suffers the faults, `b` never sees the calls that failed.
    let (mut a, mut b) = (Side::new(), Side::new());
    for s in &plan.setup {
        a.c.exec(&s.op);
        b.c.exec(&s.op);
    }
    let n = plan.threads[0].len();
    let mut tail: Vec<(Op, u32)> = vec![];
    tail.extend(vec![(Op::EndEdit { c: 0 }, 0); n]);
    tail.extend(vec![(Op::Undo, 0); n + 2]);
    tail.extend(vec![(Op::Redo, 0); n + 2]);
    let mut depth = 0;
    for (op, fail_at) in plan.threads[0].iter().map(|s| (s.op.clone(), s.fail_at)).chain(tail) {
        match op {
            Op::BeginEdit { .. } => depth += 1,
            Op::EndEdit { .. } if depth == 0 => continue,
            Op::EndEdit { .. } => depth -= 1,
            _ => {}
        }
        let import = matches!(op, Op::StartMarkdown { .. } | Op::StartHtml { .. });
        if import {
            // Starting one discards the history.
            a.doc.clear_undo_redo();
            b.doc.clear_undo_redo();
        }
        let before = a.dump();
        a.doc.poll_events();
        b.doc.poll_events();
        let (out, f) = armed(fail_at, || a.exec(&op));
        let mut after = a.dump();
        let ev = dump::events(&a.doc.poll_events());
        log(|| format!("{} fault {:?} of {} -> {:?} {:?}", serde_json::to_string(&op).unwrap(), f.fired, f.seen, out, after.get("text")));
        if f.fired.is_some() {
            count(if out.ok { "faults_survived" } else { "faults_failing_the_call" }, 1);
        }
        if !out.ok {
            if let Some((s, m)) = before.diff(&after) {
                return viol(format!("atomic: failed {} changed {s}", name(&op)), format!("{m}; {:?}: {}", f.fired, out.val));
            }
            if !ev.is_empty() && !import {
                return viol(format!("atomic: failed {} announced events", name(&op)), ev);
            }
        }
        if out.ok || f.fired.is_none() {
            let o = b.exec(&op);
            if o != out {
                let what = if f.fired.is_some() { "a fault was swallowed" } else { "after a failed call" };
                return viol(format!("atomic: {} returns something else ({what})", name(&op)), format!("{out:?} instead of {o:?}"));
            }
        }
        if out.ok && f.fired.is_some() {
            // The call has succeeded by another way, perhaps in other steps.
            if depth > 0 {
                return Ok(());
            }
            a.doc.clear_undo_redo();
            b.doc.clear_undo_redo();
            after = a.dump();
        }
        if let Some((s, m)) = b.dump().diff(&after) {
            let what = if f.fired.is_some() { "a fault was swallowed" } else { "after a failed call" };
            return viol(format!("atomic: {} goes another way ({what}): {s}", name(&op)), m);
        }
    }
    Ok(())
}
