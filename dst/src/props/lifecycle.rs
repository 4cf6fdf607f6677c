//! Long operations, subscriptions and handles over their whole life.
use crate::dump::{self, Dump};
use crate::exec::{Client, Out};
use crate::gen_ops::{self, Mix};
use crate::plan::{Op, Plan, Step};
use crate::rng::Rng;
use crate::run::{Check, SimCell, flag, log, spawn, viol};
use crate::sim;
use std::collections::BTreeMap;
use std::time::Duration;
use text_document::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Md,
    Html,
    Docx,
}
#[derive(Clone, Debug)]
struct OpRec {
    id: String,
    kind: Kind,
    text: String,
    inv: u64,
    /// Sequence number at which its end was first observed.
    done: Option<u64>,
    outcome: Option<Outcome>,
    cancel: Option<u64>,
    percent: f64,
    /// Its thread may have been refused.
    may_fail: bool,
    /// Cancelled before it had done anything.
    early: bool,
}
#[derive(Default)]
struct World {
    ops: Vec<OpRec>,
    polled: Vec<DocumentEvent>,
    threads_fail: bool,
}
type Outcome = std::result::Result<String, String>;
static W: SimCell<Option<World>> = SimCell::new(None);
fn w() -> &'static mut World {
    W.get().as_mut().unwrap()
}
/// What the handle says about operation `id`: it must never change its mind.
fn observed(id: &str, got: Option<Outcome>, from: &str) {
    let now = sim::steps();
    let Some(r) = w().ops.iter_mut().find(|r| r.id == id) else { return };
    match (&r.outcome, got) {
        (None, Some(o)) => {
            if let (Some(at), Ok(_)) = (r.cancel, &o) {
                log(|| format!("{id} succeeded although cancelled at {at}"));
            }
            r.outcome = Some(o);
            r.done = r.done.or(Some(now));
        }
        (Some(a), Some(b)) if *a != b => flag("operation: the outcome changed", format!("{from}: {id} first {a:?}, then {b:?}")),
        (Some(a), None) => flag("operation: finished, then running again", format!("{from}: {id} had ended with {a:?}")),
        (None, None) if r.done.is_some() => flag("operation: done without a result", format!("{from}: {id}")),
        _ => {}
    }
}
fn start(c: &mut Client, op: &Op) -> Out {
    let inv = sim::seq();
    let (kind, text) = match op {
        Op::StartMarkdown { text } => (Kind::Md, text.clone()),
        Op::StartHtml { text } => (Kind::Html, text.clone()),
        Op::StartDocx { path } => (Kind::Docx, path.clone()),
        _ => unreachable!(),
    };
    let o = c.exec(op);
    if o.ok {
        let id = c.op_ids.last().unwrap().clone();
        if w().ops.iter().any(|r| r.id == id) {
            flag("operation: two operations share an id", id.clone());
        }
        w().ops.push(OpRec { id, kind, text, inv, done: None, outcome: None, cancel: None, percent: 0.0, may_fail: w().threads_fail, early: false });
    } else {
        flag("operation: could not be started", format!("{op:?}: {}", o.val));
    }
    o
}
fn act(c: &mut Client, op: &Op) -> Out {
    let id = |c: &Client, o: usize| if c.op_ids.is_empty() { String::new() } else { c.op_ids[o % c.op_ids.len()].clone() };
    match op {
        Op::StartMarkdown { .. } | Op::StartHtml { .. } | Op::StartDocx { .. } => start(c, op),
        Op::OpWait { o } => {
            let id = id(c, *o);
            match c.take_op(*o) {
                None => Out::skip(),
                Some(x) => {
                    let r = x.wait().map_err(|e| e.to_string());
                    observed(&id, Some(r.clone()), "wait");
                    Out { ok: r.is_ok(), val: r.unwrap_or_else(|e| e) }
                }
            }
        }
        Op::OpWaitTimeout { o, ms } => {
            let id = id(c, *o);
            match c.take_op(*o) {
                None => Out::skip(),
                Some(x) => {
                    let t0 = std::time::Instant::now();
                    let r = x.wait_timeout(Duration::from_millis(*ms)).map(|r| r.map_err(|e| e.to_string()));
                    let dt = t0.elapsed();
                    if r.is_none() && dt < Duration::from_millis(*ms) {
                        flag("operation: wait_timeout gave up early", format!("{id} after {dt:?} of {ms} ms"));
                    }
                    if r.is_some() || w().ops.iter().any(|x| x.id == id && x.done.is_some()) {
                        observed(&id, r.clone(), "wait_timeout");
                    }
                    Out::ok(format!("{r:?}"))
                }
            }
        }
        Op::OpTry { o } => {
            let id = id(c, *o);
            match c.op(*o) {
                None => Out::skip(),
                Some(x) => {
                    let r = x.try_result().map(|r| r.map_err(|e| e.to_string()));
                    observed(&id, r.clone(), "try_result");
                    Out::ok(format!("{r:?}"))
                }
            }
        }
        Op::OpIsDone { o } => {
            let id = id(c, *o);
            match c.op(*o) {
                None => Out::skip(),
                Some(x) => {
                    let d = x.is_done();
                    let now = sim::steps();
                    if let Some(r) = w().ops.iter_mut().find(|r| r.id == id) {
                        if d {
                            r.done = r.done.or(Some(now));
                        } else if r.done.is_some() {
                            flag("operation: finished, then running again", format!("is_done: {id}"));
                        }
                    }
                    Out::ok(d.to_string())
                }
            }
        }
        Op::OpProgress { o } => {
            let id = id(c, *o);
            match c.op(*o) {
                None => Out::skip(),
                Some(x) => {
                    let p = x.progress();
                    if let Some(r) = w().ops.iter_mut().find(|r| r.id == id) {
                        match &p {
                            None => flag("operation: no progress available", id.clone()),
                            Some((v, _)) if !(0.0..=100.0).contains(v) || *v < r.percent => flag("operation: progress out of range or going back", format!("{id}: {} then {v}", r.percent)),
                            Some((v, _)) => r.percent = *v,
                        }
                    }
                    Out::ok(format!("{p:?}"))
                }
            }
        }
        Op::OpCancel { o } => {
            let id = id(c, *o);
            match c.op(*o) {
                None => Out::skip(),
                Some(x) => {
                    let now = sim::steps();
                    if let Some(r) = w().ops.iter_mut().find(|r| r.id == id) {
                        r.cancel = r.cancel.or(Some(now));
                    }
                    x.cancel();
                    // Not even parsed its input yet: it has every check for cancellation ahead.
                    if x.progress().is_some_and(|p| p.0 == 0.0) {
                        if let Some(r) = w().ops.iter_mut().find(|r| r.id == id) {
                            r.early = r.outcome.is_none();
                        }
                    }
                    Out::ok("")
                }
            }
        }
        Op::Poll => {
            let v = c.doc.as_ref().map(|d| d.poll_events()).unwrap_or_default();
            let s = dump::events(&v);
            w().polled.extend(v);
            Out::ok(s)
        }
        _ => c.exec(op),
    }
}
/// Every started operation is announced finished exactly once, after its progress.
fn check_announcements(polled: &[DocumentEvent]) -> Check {
    let mut fin: BTreeMap<&str, (bool, Option<String>)> = BTreeMap::new();
    let mut pct: BTreeMap<&str, f64> = BTreeMap::new();
    for e in polled {
        match e {
            DocumentEvent::LongOperationProgress { operation_id, percent, .. } => {
                if fin.contains_key(operation_id.as_str()) {
                    return viol("operation: progress announced after the end", format!("{operation_id} {percent}"));
                }
                let p = pct.entry(operation_id).or_insert(0.0);
                if !(0.0..=100.0).contains(percent) || *percent < *p {
                    return viol("operation: announced progress out of range or going back", format!("{operation_id}: {p} then {percent}"));
                }
                *p = *percent;
            }
            DocumentEvent::LongOperationFinished { operation_id, success, error } => {
                if fin.insert(operation_id, (*success, error.clone())).is_some() {
                    return viol("operation: announced finished twice", operation_id.clone());
                }
            }
            _ => {}
        }
    }
    for r in &w().ops {
        match fin.remove(r.id.as_str()) {
            None => return viol("operation: end never announced", format!("{r:?}")),
            Some((ok, err)) => {
                if ok && err.is_some() {
                    return viol("operation: announced successful with an error", format!("{r:?} {err:?}"));
                }
                match &r.outcome {
                    Some(o) if o.is_ok() != ok => return viol("operation: handle and event disagree", format!("{r:?} announced success={ok} {err:?}")),
                    Some(Err(e)) if r.cancel.is_none() && err.as_ref() != Some(e) => return viol("operation: handle and event give different errors", format!("{r:?} announced {err:?}")),
                    _ => {}
                }
                if !ok && err.as_deref().is_some_and(|e| e.starts_with("Could not start a thread")) && r.may_fail {
                    continue;
                }
                if !ok && r.cancel.is_none() {
                    return viol("operation: fails although nobody cancelled it", format!("{r:?} announced {err:?}"));
                }
                if !ok && r.cancel.is_some() && err.as_deref() != Some("cancelled") {
                    return viol("operation: cancellation announced as a failure", format!("{r:?} announced {err:?}"));
                }
                if ok && r.early {
                    return viol("operation: succeeds although cancelled before it began", format!("{r:?}"));
                }
            }
        }
    }
    if let Some((id, _)) = fin.iter().next() {
        return viol("operation: end of an unknown operation announced", id.to_string());
    }
    Ok(())
}

// ------------------------------------------------------------- generation
fn long_text(r: &mut Rng, html: bool, quotes: bool) -> String {
    let n = *r.pick(&[0, 1, 3, 3, 12, 25]);
    let v: Vec<String> = (0..n)
        .map(|i| match (html, r.below(5)) {
            (false, 0) => format!("- item {i}\n- more"),
            (false, 1) => format!("# Head {i}"),
            (false, 2) if quotes => format!("> quote {i}"),
            (false, _) => format!("para *{i}* {}", gen_ops::word(r)),
            (true, 0) => format!("<ul><li>item {i}</li><li>x</li></ul>"),
            (true, 1) => format!("<h1>Head {i}</h1>"),
            (true, 2) if quotes => format!("<blockquote><p>quote {i}</p></blockquote>"),
            (true, _) => format!("<p>para <i>{i}</i></p>"),
        })
        .collect();
    v.join(if html { "" } else { "\n\n" })
}
fn start_op(r: &mut Rng, quotes: bool) -> Op {
    match r.below(5) {
        0 | 1 => Op::StartMarkdown { text: long_text(r, false, quotes) },
        2 | 3 => Op::StartHtml { text: long_text(r, true, quotes) },
        _ => Op::StartDocx { path: "/simdisk/out.docx".into() },
    }
}
fn op_op(r: &mut Rng) -> Op {
    let o = r.below(3);
    match r.below(12) {
        0 | 1 => Op::OpWait { o },
        2 => Op::OpWaitTimeout { o, ms: *r.pick(&[0, 1, 20, 75, 1000]) },
        3 | 4 => Op::OpTry { o },
        5 => Op::OpProgress { o },
        6 => Op::OpIsDone { o },
        7 | 8 => Op::OpCancel { o },
        9 => Op::OpDrop { o },
        10 => Op::Sleep { ms: *r.pick(&[0, 1, 60]) },
        _ => Op::WallJump { ms: *r.pick(&[-3_600_000, 3_600_000, 500]) },
    }
}
fn setup(r: &mut Rng, p: &mut Plan) {
    let m = Mix { text: 6, rich: 2, format: 3, list: 2, moves: 4, ..Default::default() };
    p.setup = vec![Op::SetPlainText { text: gen_ops::para(r, 4) }.into()];
    let n = r.range(0, 5);
    p.setup.extend(gen_ops::steps(r, &m, 1, n));
}
/// Operations and their handles; nothing else touches the document meanwhile.
pub fn gen_ops_only(r: &mut Rng, p: &mut Plan) {
    setup(r, p);
    let nt = *r.pick(&[1, 1, 2, 3]);
    for t in 0..nt {
        let mut v: Vec<Step> = vec![];
        for _ in 0..r.range(1, if nt == 1 { 3 } else { 2 }) {
            v.push(start_op(r, true).into());
            for _ in 0..r.range(0, 4) {
                v.push(if t == 0 && r.chance(1, 4) { Op::Poll.into() } else { op_op(r).into() });
            }
        }
        p.threads.push(v);
    }
    super::concurrent_sched(r, &mut p.sched, 60_000);
    if r.chance(1, 6) {
        p.sched.spawnfail_ppm = 400_000;
    }
}
fn begin(plan: &Plan) -> (TextDocument, Client) {
    *W.get() = Some(World { threads_fail: plan.sched.spawnfail_ppm > 0, ..Default::default() });
    let doc = TextDocument::new();
    let mut c = Client::new(doc.clone(), 1);
    for s in &plan.setup {
        c.exec(&s.op);
    }
    doc.poll_events();
    (doc, c)
}
fn names() -> Vec<String> {
    vec!["pic".into()]
}
fn content(doc: &TextDocument) -> Dump {
    dump::content(doc, &names())
}
/// The document an import produces when nothing disturbs it.
fn reference(plan: &Plan, r: &OpRec) -> Dump {
    let doc = TextDocument::new();
    let mut c = Client::new(doc.clone(), 1);
    for s in &plan.setup {
        c.exec(&s.op);
    }
    match r.kind {
        Kind::Md => doc.set_markdown(&r.text).and_then(|o| o.wait()).map(|_| ()),
        Kind::Html => doc.set_html(&r.text).and_then(|o| o.wait()).map(|_| ()),
        Kind::Docx => Ok(()),
    }
    .expect("reference import");
    content(&doc)
}
fn end_of_clients(hs: Vec<std::thread::JoinHandle<()>>) -> Check {
    for h in hs {
        let _ = h.join();
    }
    sim::calm();
    match crate::run::flagged() {
        Some(v) => Err(v),
        None => Ok(()),
    }
}
pub fn run_ops_only(plan: &'static Plan) -> Check {
    let (doc, c0) = begin(plan);
    let before = content(&doc);
    let mut clients = vec![c0];
    for _ in 1..plan.threads.len() {
        clients.push(Client::new(doc.clone(), 0));
    }
    let hs: Vec<_> = clients
        .into_iter()
        .enumerate()
        .map(|(t, mut c)| {
            spawn(sim::ROLE_CLIENT, move || {
                for s in &plan.threads[t] {
                    let o = act(&mut c, &s.op);
                    log(|| format!("T{t} {} -> {o:?}", serde_json::to_string(&s.op).unwrap()));
                }
            })
        })
        .collect();
    end_of_clients(hs)?;
    // Every operation ends by itself once nobody interferes any more.
    sim::quiesce();
    let mut c = Client::new(doc.clone(), 1);
    act(&mut c, &Op::Poll);
    if plan.property != "C09" {
        return check_announcements(&w().polled);
    }
    // The content is the one the operations that succeeded imply.
    let fin: BTreeMap<&str, bool> = w().polled.iter().filter_map(|e| if let DocumentEvent::LongOperationFinished { operation_id, success, .. } = e { Some((operation_id.as_str(), *success)) } else { None }).collect();
    let imports: Vec<&OpRec> = w().ops.iter().filter(|r| r.kind != Kind::Docx && fin.get(r.id.as_str()) == Some(&true)).collect();
    let now = content(&doc);
    log(|| format!("final text {:?} successful imports {:?}", now.get("text"), imports.iter().map(|r| &r.id).collect::<Vec<_>>()));
    if imports.is_empty() {
        if let Some((s, d)) = before.diff(&now) {
            return viol(format!("import: {s} changed although no import succeeded"), d);
        }
        return Ok(());
    }
    let mut why = String::new();
    for r in &imports {
        if imports.iter().any(|x| r.done.is_some_and(|d| x.inv > d)) {
            continue;
        }
        match reference(plan, r).diff(&now) {
            None => {
                why.clear();
                break;
            }
            Some((_, d)) => why = d,
        }
    }
    if !why.is_empty() {
        return viol("import: the document is not the one the last import describes", format!("{why}; operations {:?}", w().ops));
    }
    if doc.can_undo() || doc.can_redo() {
        return viol("import: history survives an import", dump::flags(&doc));
    }
    super::consistency::views(&doc)
}
