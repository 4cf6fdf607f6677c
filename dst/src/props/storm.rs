//! Every call returns, whatever else is going on, and afterwards the document is as good as before.
use crate::exec::Client;
use crate::gen_ops::{self, Mix};
use crate::plan::{Op, Plan, Step};
use crate::rng::Rng;
use crate::run::{Check, SimCell, Viol, count, flagged, log, panic_viol, panicked, spawn, viol};
use crate::sim::{self, Disk};
use text_document::*;

#[derive(Default)]
struct World {
    doc: Option<TextDocument>,
    subs: Vec<Option<Subscription>>,
    edits_left: u32,
}
static W: SimCell<Option<World>> = SimCell::new(None);
fn w() -> &'static mut World {
    W.get().as_mut().unwrap()
}
fn callback(behaviour: u8, n: usize) {
    let d = w().doc.as_ref().unwrap().clone();
    let edit = |k: u32| {
        let e = w().edits_left >= k;
        w().edits_left -= if e { k } else { 0 };
        e
    };
    match behaviour {
        1 => {
            let _ = d.snapshot_flow().elements.len();
            let _ = (d.to_plain_text(), d.stats(), d.can_undo(), d.blocks().len());
        }
        2 if edit(1) => {
            let c = d.cursor();
            let _ = c.insert_text("cb ");
        }
        3 if edit(1) => {
            let _ = d.undo();
        }
        4 => {
            let h = w().subs[n].take();
            drop(h);
        }
        5 if edit(1) => subscribe(1),
        6 if edit(1) => {
            let _ = d.set_markdown("from a callback");
        }
        7 if edit(1) => {
            if let Ok(o) = d.set_html("<p>from a callback</p>") {
                o.cancel();
                let _ = o.wait();
            }
        }
        8 => {
            d.poll_events();
            d.rehighlight();
        }
        _ => {}
    }
}
fn subscribe(behaviour: u8) {
    let d = w().doc.as_ref().unwrap().clone();
    let n = w().subs.len();
    w().subs.push(None);
    let h = d.on_change(move |_| callback(behaviour, n));
    w().subs[n] = Some(h);
}
fn pos(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => 1 << 40,
        1 => 1 << 31,
        2 => 1 << 32,
        _ => r.below(60),
    }
}
fn any_op(r: &mut Rng, m: &Mix, disk: bool) -> Op {
    let (c, o) = (r.below(2), r.below(3));
    match r.weighted(&[14, 4, 4, 3, 3, 2]) {
        0 => gen_ops::op(r, m, 2),
        // reads and handles
        1 => match r.below(8) {
            0 | 1 => Op::ReadMisc { pos: pos(r), len: pos(r) },
            2 => Op::ReadCursorAll { c },
            3 => Op::Keep { n: r.below(5) },
            4 | 5 => Op::ReadKept,
            6 => Op::ReadLatex,
            _ => Op::ReadFlow,
        },
        2 => match r.below(9) {
            0 => Op::NewCursor { frac: r.below(65537) as u32 },
            1 => Op::CloneCursor { c },
            2 => Op::DropCursor { c },
            3 => Op::CloneDoc,
            4 => Op::DropDoc,
            5 => Op::SetPos { c, pos: pos(r), keep: r.chance(1, 2) },
            6 => Op::SetHighlighter { kind: r.below(4) as u8 },
            7 => Op::Rehighlight,
            _ => Op::RehighlightBlock { n: r.below(4) },
        },
        // operations
        3 => match r.below(5) {
            0 | 1 => Op::StartMarkdown { text: gen_ops::markdown(r, false) },
            2 | 3 => Op::StartHtml { text: gen_ops::html(r, false) },
            _ => Op::StartDocx { path: "/simdisk/s.docx".into() },
        },
        4 => match r.below(8) {
            0 | 1 => Op::OpWait { o },
            2 => Op::OpWaitTimeout { o, ms: *r.pick(&[0, 1, 60, 500]) },
            3 => Op::OpTry { o },
            4 => Op::OpCancel { o },
            5 => Op::OpDrop { o },
            6 => Op::OpProgress { o },
            _ => Op::OpIsDone { o },
        },
        _ => match r.below(if disk { 8 } else { 7 }) {
            0 => Op::Poll,
            1 | 2 => Op::Subscribe { behaviour: r.below(9) as u8 },
            3 => Op::Unsubscribe { s: r.below(4) },
            4 => Op::Sleep { ms: *r.pick(&[0, 1, 60]) },
            5 | 6 => Op::WallJump { ms: *r.pick(&[-86_400_000, -1, 3_600_000, 2500]) },
            _ => {
                let mut d = Disk { seed: r.next(), ..Default::default() };
                match r.below(5) {
                    0 => d.open_err = *r.pick(&[2, 13, 28]),
                    1 => d.fail_after_bytes = r.below(3000) as i64,
                    2 => d.write_err = 5,
                    3 => d.close_err = 5,
                    _ => {
                        d.short_writes = 1;
                        d.eintr_every = 3;
                    }
                }
                Op::DiskFaults { d }
            }
        },
    }
}
pub fn generate(r: &mut Rng, p: &mut Plan) {
    let mut m: Mix = super::consistency::mix_for(r);
    m.history = 3;
    m.meta = 1;
    m.reads = 2;
    m.composite = r.below(2) as u32;
    p.setup = gen_ops::origin(r, 4);
    let disk = r.chance(1, 3);
    let nt = r.range(1, 4);
    for _ in 0..nt {
        let n = r.range(2, if nt == 1 { 20 } else { 8 });
        p.threads.push((0..n).map(|_| Step::from(any_op(r, &m, disk))).collect());
    }
    super::concurrent_sched(r, &mut p.sched, 20_000);
    if r.chance(1, 6) {
        p.sched.spawnfail_ppm = *r.pick(&[100_000, 500_000]);
    }
}
pub fn run(plan: &'static Plan) -> Check {
    let doc = TextDocument::new();
    *W.get() = Some(World { doc: Some(doc.clone()), edits_left: 5, ..Default::default() });
    let mut c0 = Client::new(doc.clone(), 2);
    for s in &plan.setup {
        c0.exec(&s.op);
    }
    let mut clients = vec![c0];
    for _ in 1..plan.threads.len() {
        clients.push(Client::new(doc.clone(), 2));
    }
    let blocks: usize = plan.threads.iter().flatten().filter(|s| matches!(s.op, Op::BeginEdit { .. })).count();
    let hs: Vec<_> = clients
        .into_iter()
        .enumerate()
        .map(|(t, mut c)| {
            spawn(sim::ROLE_CLIENT, move || {
                for s in &plan.threads[t] {
                    let what = match &s.op {
                        Op::Subscribe { behaviour } => {
                            subscribe(*behaviour);
                            String::new()
                        }
                        Op::Unsubscribe { s } => {
                            let n = w().subs.len();
                            let h = if n > 0 { w().subs[s % n].take() } else { None };
                            drop(h);
                            String::new()
                        }
                        o => format!("{:?}", c.exec(o)),
                    };
                    log(|| format!("T{t} {} -> {what}", serde_json::to_string(&s.op).unwrap()));
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    // The faults are over.
    sim::calm();
    sim::disk_faults(&Disk::default());
    sim::quiesce();
    if let Some(v) = flagged() {
        return Err(v);
    }
    if let Some(m) = panicked() {
        return Err(panic_viol(m));
    }
    for h in std::mem::take(&mut w().subs) {
        drop(h);
    }
    doc.poll_events();
    let end = doc.cursor();
    for _ in 0..blocks + 1 {
        end.end_edit_block();
    }
    let bad = |what: &str, e: String| -> Check { viol(format!("progress: {what}"), e) };
    super::consistency::views(&doc).map_err(|v| Viol { class: format!("{} at the end", v.class), detail: v.detail })?;
    // Everything still works.
    let before = doc.to_plain_text().map_err(|e| Viol { class: "progress: reading fails".into(), detail: e.to_string() })?;
    // Typing is not merged with what was typed long ago.
    std::thread::sleep(std::time::Duration::from_secs(3));
    end.set_position(0, MoveMode::MoveAnchor);
    if let Err(e) = end.insert_text("probe") {
        return bad("editing fails", e.to_string());
    }
    let now = doc.to_plain_text().unwrap_or_default();
    if now != format!("probe{before}") {
        return bad("an edit goes wrong", format!("{before:?} became {now:?}"));
    }
    if !doc.can_undo() {
        return bad("an edit cannot be undone", String::new());
    }
    if let Err(e) = doc.undo() {
        return bad("undo fails", e.to_string());
    }
    let now = doc.to_plain_text().unwrap_or_default();
    if now != before {
        return bad("undo goes wrong", format!("{before:?} became {now:?}"));
    }
    match doc.to_docx("/simdisk/end.docx").and_then(|o| o.wait()) {
        Ok(_) if sim::disk_get("/simdisk/end.docx").is_some_and(|v| v.len() > 500) => {}
        Ok(_) => return bad("an export writes nothing", String::new()),
        Err(e) => return bad("an export fails", e.to_string()),
    }
    if let Err(e) = doc.set_markdown("the end").and_then(|o| o.wait()) {
        return bad("an import fails", e.to_string());
    }
    let now = doc.to_plain_text().unwrap_or_default();
    if now != "the end" {
        return bad("an import goes wrong", now);
    }
    count("storms_survived", 1);
    Ok(())
}
