//! Calls made by several threads take effect one at a time.
use crate::dump::{self, Dump};
use crate::exec::{Client, Out};
use crate::gen_ops::{self, Mix};
use crate::plan::{Op, Plan, Step};
use crate::rng::Rng;
use crate::run::{Check, SimCell, count, log, spawn, viol};
use crate::sim;
use text_document::*;

pub fn generate(r: &mut Rng, p: &mut Plan) {
    let light = Mix { text: 10, format: 2, reads: 3, moves: 1, ..Default::default() };
    let all = Mix { moves: 1, text: 8, rich: 2, format: 3, list: 2, doc: 1, replace: 2, history: 4, composite: 1, clip: 1, meta: 2, reads: 4, ..Default::default() };
    let hist = Mix { text: 6, history: 6, replace: 1, reads: 2, ..Default::default() };
    let m = *r.pick(&[light, all, all, hist]);
    p.setup = vec![Op::SetPlainText { text: gen_ops::para(r, 3) }.into()];
    let nthreads = *r.pick(&[2, 2, 2, 3, 3, 4]);
    let per = if nthreads == 2 { 4 } else { 3 };
    for t in 0..nthreads {
        // initial position of this thread's cursor (executed before the threads start)
        p.setup.push(Op::SetFrac { c: t, frac: r.below(65537) as u32, keep: false }.into());
        if r.chance(1, 3) {
            p.setup.push(Op::SetFrac { c: t, frac: r.below(65537) as u32, keep: true }.into());
        }
    }
    for t in 0..nthreads {
        let n = r.range(1, per);
        let mut v = vec![];
        while v.len() < n {
            if r.chance(1, 12) {
                v.push(Step::from(Op::ReadCursor { c: r.below(nthreads) }));
                continue;
            }
            let mut o = gen_ops::op(r, &m, 1);
            if !allowed(&o) {
                continue;
            }
            retarget(&mut o, t, r, nthreads);
            v.push(Step::from(o));
        }
        p.threads.push(v);
    }
    // Undo and redo are not used while an edit block is open.
    if p.threads.iter().flatten().any(|s| matches!(s.op, Op::BeginEdit { .. })) {
        for t in &mut p.threads {
            t.retain(|s| !matches!(s.op, Op::Undo | Op::Redo));
        }
    }
    super::concurrent_sched(r, &mut p.sched, 300 * nthreads as u64);
    p.sched.timeskip_ppm = 0;
}
/// Only calls that are one call on the public API (the executor composes some
/// plan steps from several).
pub fn allowed(o: &Op) -> bool {
    !matches!(o, Op::SetFrac { .. } | Op::SetPos { .. } | Op::AddToList { .. } | Op::RemoveListItem { .. } | Op::Move { .. } | Op::Select { .. } | Op::Copy { .. } | Op::RemoveFromList { .. } | Op::SetListFormat { .. } | Op::SetModified { .. } | Op::ClearUndo)
}
/// Most calls use the thread's own cursor; some use another thread's.
fn retarget(o: &mut Op, t: usize, r: &mut Rng, n: usize) {
    let to = if r.chance(1, 8) { r.below(n) } else { t };
    let mut v = serde_json::to_value(&*o).unwrap();
    if let Some(m) = v.as_object_mut().and_then(|m| m.values_mut().next()) {
        if let Some(c) = m.get_mut("c") {
            *c = to.into();
        }
    }
    *o = serde_json::from_value(v).unwrap();
}
/// Imports running while other threads edit and read.
pub fn gen_imports(r: &mut Rng, p: &mut Plan) {
    let all = Mix { text: 8, format: 3, list: 2, doc: 1, replace: 1, history: 2, meta: 3, reads: 4, ..Default::default() };
    p.setup = vec![Op::SetPlainText { text: gen_ops::para(r, 3) }.into()];
    let nthreads = *r.pick(&[2, 2, 3]);
    for t in 0..nthreads {
        p.setup.push(Op::SetFrac { c: t, frac: r.below(65537) as u32, keep: false }.into());
    }
    for t in 0..nthreads {
        let n = r.range(1, if nthreads == 2 { 4 } else { 3 });
        let mut v: Vec<Step> = vec![];
        if t == 0 || r.chance(1, 3) {
            if r.chance(1, 4) {
                v.push(Op::InsertText { c: t, text: gen_ops::word(r) }.into());
            }
            let text: String = if r.chance(1, 2) { gen_ops::markdown(r, false) } else { gen_ops::html(r, false) };
            v.push(if text.starts_with('<') || text.contains("</") { Op::StartHtml { text } } else { Op::StartMarkdown { text } }.into());
        }
        while v.len() < n {
            let imp = v.iter().any(|s| matches!(s.op, Op::StartHtml { .. } | Op::StartMarkdown { .. }));
            if imp && r.chance(1, 3) {
                v.push(
                    match r.below(6) {
                        0 => Op::OpWait { o: 0 },
                        1 => Op::OpTry { o: 0 },
                        2 => Op::OpIsDone { o: 0 },
                        3 => Op::OpCancel { o: 0 },
                        4 => Op::OpDrop { o: 0 },
                        _ => Op::Sleep { ms: 10 },
                    }
                    .into(),
                );
                continue;
            }
            let mut o = gen_ops::op(r, &all, 1);
            if !allowed(&o) {
                continue;
            }
            retarget(&mut o, t, r, nthreads);
            v.push(Step::from(o));
        }
        p.threads.push(v);
    }
    super::concurrent_sched(r, &mut p.sched, 6_000);
}
#[derive(Clone, Debug)]
struct Rec {
    thread: usize,
    op: Op,
    inv: u64,
    resp: u64,
    /// None: nobody saw what it returned.
    out: Option<Out>,
    /// Takes effect after this record (an import is published after it was started).
    after: Option<usize>,
    /// The import this record starts.
    starts: Option<usize>,
}
/// An import under way: its start is one call, its publication another.
#[derive(Clone, Debug)]
struct Import {
    thread: usize,
    id: String,
    op: Op,
    inv: u64,
    done: Option<(u64, Option<Out>)>,
}
static IMPORTS: SimCell<Vec<Import>> = SimCell::new(vec![]);
static RECS: SimCell<Vec<Rec>> = SimCell::new(vec![]);

fn reads(doc: &TextDocument, op: &Op) -> Option<Out> {
    match op {
        Op::ReadFlow => Some(Out::ok(dump::flow_lines(doc, false).join("\n"))),
        // Three calls: not one atomic read.
        Op::ReadFlags => Some(Out::ok(doc.can_undo().to_string())),
        // Read without the document's lock, at any instant of another thread's edit.
        Op::ReadCursor { .. } => None,
        // Ids depend on when an import took its copy of the document.
        Op::ReadBlockAt { pos } => Some(Out::of(doc.block_at(*pos), |b| format!("{} {} {}", b.block_number, b.start, b.length))),
        // In a sequential run an import is one call.
        Op::StartMarkdown { text } => Some(Out::of(doc.set_markdown(text).and_then(|o| o.wait()), |r| format!("blocks={}", r.block_count))),
        Op::StartHtml { text } => Some(Out::of(doc.set_html(text).and_then(|o| o.wait()), |r| format!("blocks={}", r.block_count))),
        _ => None,
    }
}
fn exec(c: &mut Client, op: &Op) -> Out {
    match reads(c.doc.as_ref().unwrap(), op) {
        Some(o) => o,
        None if matches!(op, Op::ReadCursor { .. }) => {
            c.exec(op);
            Out::skip()
        }
        None => c.exec(op),
    }
}
fn start(plan: &Plan) -> (TextDocument, Client) {
    let doc = TextDocument::new();
    let n = plan.threads.len();
    let mut c = Client::new(doc.clone(), n);
    for s in &plan.setup {
        c.exec(&s.op);
    }
    (doc, c)
}
fn finish(doc: &TextDocument, c: &Client, edits_only: bool) -> Dump {
    let mut d = dump::content(doc, &["pic".to_string(), "img2".to_string()]).without(&[]);
    d.sections.push(("flags", vec![format!("{} {}", doc.can_undo(), doc.can_redo())]));
    if !edits_only {
        d.sections.push(("cursors", c.cursors.iter().flatten().map(|k| format!("{},{}", k.position(), k.anchor())).collect()));
    }
    d
}
/// One client per thread, all on the same cursors.
fn views(doc: &TextDocument, base: Client, n: usize) -> Vec<Client> {
    let mut v: Vec<Client> = vec![];
    let curs: Vec<std::sync::Arc<TextCursor>> = base.cursors.into_iter().flatten().map(std::sync::Arc::new).collect();
    for _ in 0..n {
        let mut c = Client::new(doc.clone(), 0);
        c.shared = curs.clone();
        v.push(c);
    }
    v
}

/// One step of a live thread: imports run on their own, their handles are observed.
fn live(c: &mut Client, t: usize, op: &Op) {
    let inv = sim::seq();
    let finished = |c: &Client, o: usize, out: Option<Out>| {
        let id = &c.op_ids[o % c.op_ids.len()];
        let now = sim::seq();
        if let Some(i) = IMPORTS.get().iter_mut().find(|i| i.id == *id) {
            i.done.get_or_insert((now, out));
        }
    };
    let out = match op {
        Op::StartMarkdown { .. } | Op::StartHtml { .. } => {
            let out = c.exec(op);
            let id = c.op_ids.last().cloned().unwrap_or_default();
            if out.ok {
                let start = sim::seq();
                let n = IMPORTS.get().len();
                IMPORTS.get().push(Import { thread: t, id, op: op.clone(), inv, done: None });
                RECS.get().push(Rec { thread: t, op: Op::ClearUndo, inv, resp: start, out: None, after: None, starts: Some(n) });
            }
            out
        }
        Op::OpWait { o } => match c.take_op(*o) {
            None => Out::skip(),
            Some(x) => {
                let out = Out::of(x.wait(), |s| s);
                finished(c, *o, Some(out.clone()));
                out
            }
        },
        Op::OpTry { o } => match c.op(*o).and_then(|x| x.try_result()) {
            None => Out::skip(),
            Some(r) => {
                let out = Out::of(r, |s| s);
                finished(c, *o, Some(out.clone()));
                out
            }
        },
        Op::OpIsDone { o } => {
            let d = c.op(*o).is_some_and(|x| x.is_done());
            if d {
                finished(c, *o, None);
            }
            Out::ok(d.to_string())
        }
        Op::OpCancel { .. } | Op::OpDrop { .. } | Op::Sleep { .. } => c.exec(op),
        _ => {
            let out = exec(c, op);
            let resp = sim::seq();
            RECS.get().push(Rec { thread: t, op: op.clone(), inv, resp, out: Some(out.clone()), after: None, starts: None });
            out
        }
    };
    log(|| format!("T{t} {} -> {:?} [{inv},{}]", serde_json::to_string(op).unwrap(), out, sim::steps()));
}
pub fn run(plan: &'static Plan) -> Check {
    let n = plan.threads.len();
    RECS.get().clear();
    IMPORTS.get().clear();
    let (doc, base) = start(plan);
    let clients = views(&doc, base, n);
    let shared = clients[0].shared.clone();
    let hs: Vec<_> = clients
        .into_iter()
        .enumerate()
        .map(|(t, mut c)| {
            spawn(sim::ROLE_CLIENT, move || {
                for s in &plan.threads[t] {
                    live(&mut c, t, &s.op);
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    if let Some(v) = crate::run::flagged() {
        return Err(v);
    }
    let mut view = Client::new(doc.clone(), 0);
    view.shared = shared;
    if !IMPORTS.get().is_empty() {
        sim::quiesce();
        let ended: Vec<(String, bool)> = doc
            .poll_events()
            .into_iter()
            .filter_map(|e| if let DocumentEvent::LongOperationFinished { operation_id, success, .. } = e { Some((operation_id, success)) } else { None })
            .collect();
        for (n, i) in IMPORTS.get().iter().enumerate() {
            let Some((_, ok)) = ended.iter().find(|e| e.0 == i.id) else { continue };
            if *ok {
                let (resp, out) = i.done.clone().unwrap_or((u64::MAX, None));
                RECS.get().push(Rec { thread: i.thread, op: i.op.clone(), inv: i.inv, resp, out, after: Some(n), starts: None });
            }
        }
    }
    let fin = finish_shared(&doc, &view);
    log(|| format!("final text {:?} cursors {:?}", fin.get("text"), fin.get("cursors")));
    let mut recs = RECS.get().clone();
    recs.sort_by_key(|r| r.resp);
    sim::calm();
    let mut s = Search { plan, recs: &recs, fin: &fin, budget: 400, worst: String::new() };
    let mut prefix = vec![];
    if s.dfs(&mut prefix) {
        return Ok(());
    }
    if s.budget == 0 {
        count("linearization search gave up", 1);
        return Ok(());
    }
    let overlap = recs.iter().enumerate().any(|(i, a)| recs[i + 1..].iter().any(|b| a.inv < b.resp && b.inv < a.resp && a.thread != b.thread));
    viol(
        if overlap { "concurrent calls are not equivalent to any sequential order" } else { "calls of several threads one after the other differ from a sequential run" },
        format!("{} / {}", recs.iter().map(|r| format!("T{}:{}[{},{}]->{}", r.thread, serde_json::to_string(&r.op).unwrap(), r.inv, r.resp, r.out.as_ref().map(|o| o.val.chars().take(80).collect::<String>()).unwrap_or_default())).collect::<Vec<_>>().join("; "), s.worst),
    )
}
fn finish_shared(doc: &TextDocument, c: &Client) -> Dump {
    let mut d = finish(doc, c, true);
    d.sections.push(("cursors", c.shared.iter().map(|k| format!("{},{}", k.position(), k.anchor())).collect()));
    d
}
struct Search<'a> {
    plan: &'a Plan,
    recs: &'a [Rec],
    fin: &'a Dump,
    budget: u64,
    worst: String,
}
impl Search<'_> {
    /// Runs the prefix on a fresh document; Some(true) when it is complete and matches.
    fn try_prefix(&mut self, prefix: &[usize]) -> bool {
        let (doc, base) = start(self.plan);
        let mut cs = views(&doc, base, self.plan.threads.len());
        for (k, &i) in prefix.iter().enumerate() {
            let r = &self.recs[i];
            let out = exec(&mut cs[r.thread], &r.op);
            if r.out.as_ref().is_some_and(|o| *o != out) {
                if k + 1 == prefix.len() && self.worst.is_empty() {
                    self.worst = format!("first order tried: call {k} returns {:?}", out);
                }
                return false;
            }
        }
        if prefix.len() == self.recs.len() {
            let d = finish_shared(&doc, &cs[0]);
            if let Some((_, m)) = d.diff(self.fin) {
                if self.worst.is_empty() {
                    self.worst = format!("first order tried ends with {m}");
                }
                return false;
            }
        }
        true
    }
    fn dfs(&mut self, prefix: &mut Vec<usize>) -> bool {
        if prefix.is_empty() {
            // most likely order first, as a whole
            let order: Vec<usize> = (0..self.recs.len()).collect();
            self.budget -= 1;
            if self.try_prefix(&order) {
                return true;
            }
        }
        if prefix.len() == self.recs.len() {
            return true;
        }
        let left: Vec<usize> = (0..self.recs.len()).filter(|i| !prefix.contains(i)).collect();
        let min_resp = left.iter().map(|&i| self.recs[i].resp).min().unwrap();
        for &i in &left {
            if self.recs[i].inv > min_resp || self.recs[i].after.is_some_and(|a| left.iter().any(|&j| self.recs[j].starts == Some(a))) {
                continue;
            }
            if self.budget == 0 {
                return false;
            }
            self.budget -= 1;
            prefix.push(i);
            if self.try_prefix(prefix) && self.dfs(prefix) {
                return true;
            }
            prefix.pop();
        }
        false
    }
}
