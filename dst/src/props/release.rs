//! When the last handle is gone, so is everything the document owned.
use crate::exec::Client;
use crate::gen_ops::{self, Mix};
use crate::plan::{Op, Plan, Step};
use crate::rng::Rng;
use crate::run::{Check, SimCell, log, spawn, viol};
use crate::sim;
use std::sync::{Arc, Weak};
use text_document::*;

/// What user code captured in callbacks and highlighters.
struct Token(#[allow(dead_code)] u32);
#[derive(Default)]
struct World {
    tokens: Vec<(&'static str, Weak<Token>)>,
    /// Handles which a callback drops, on whatever thread it runs.
    stash: Vec<TextDocument>,
    cursors: Vec<TextCursor>,
}
static W: SimCell<Option<World>> = SimCell::new(None);
fn w() -> &'static mut World {
    W.get().as_mut().unwrap()
}
fn token(what: &'static str) -> Arc<Token> {
    let t = Arc::new(Token(7));
    w().tokens.push((what, Arc::downgrade(&t)));
    t
}
struct Counting(u8, #[allow(dead_code)] Arc<Token>);
impl SyntaxHighlighter for Counting {
    fn highlight_block(&self, text: &str, ctx: &mut HighlightContext) {
        crate::highlight::H(self.0).highlight_block(text, ctx)
    }
}
/// Handles a thread holds besides its client's.
#[derive(Default)]
struct Held {
    blocks: Vec<TextBlock>,
    lists: Vec<TextList>,
    flow: Vec<FlowElement>,
}
fn step(c: &mut Client, held: &mut Held, op: &Op) -> String {
    match op {
        Op::Subscribe { behaviour } => {
            let Some(d) = c.doc.clone().or_else(|| c.spare.last().cloned()) else { return "skip".into() };
            let t = token("callback");
            let s = match behaviour {
                0 => d.on_change(move |_| {
                    let _ = &t;
                }),
                1 => {
                    let own = d.clone();
                    d.on_change(move |_| {
                        let _ = (&t, own.block_count());
                    })
                }
                2 => {
                    let k = d.cursor();
                    d.on_change(move |_| {
                        let _ = (&t, k.position());
                    })
                }
                _ => d.on_change(move |_| {
                    let _ = &t;
                    let (d, k) = (w().stash.pop(), w().cursors.pop());
                    drop(d);
                    drop(k);
                }),
            };
            c.subs.push(Some(s));
            String::new()
        }
        Op::SetHighlighter { kind } => {
            if let Some(d) = &c.doc {
                if *kind == 0 {
                    d.set_syntax_highlighter(None);
                } else {
                    d.set_syntax_highlighter(Some(Arc::new(Counting(*kind, token("highlighter")))));
                }
            }
            String::new()
        }
        Op::CloneDoc => {
            if let Some(d) = c.doc.clone() {
                if c.spare.len() % 2 == 0 {
                    c.spare.push(d);
                } else {
                    w().stash.push(d);
                }
            }
            String::new()
        }
        Op::CloneCursor { .. } => {
            if let Some(k) = c.cursors.iter().flatten().next() {
                w().cursors.push(k.clone());
            }
            String::new()
        }
        Op::DropDoc => {
            if c.spare.pop().is_none() {
                c.doc = None;
            }
            String::new()
        }
        Op::ReadBlocks => {
            if let Some(d) = &c.doc {
                held.blocks = d.blocks();
                held.lists = held.blocks.iter().filter_map(|b| b.list()).collect();
                held.flow = d.flow();
            }
            String::new()
        }
        o => format!("{:?}", c.exec(o)),
    }
}
pub fn generate(r: &mut Rng, p: &mut Plan) {
    let m = Mix { moves: 2, text: 6, rich: 2, format: 2, list: 2, replace: 1, doc: 1, history: 3, composite: 1, clip: 1, meta: 1, reads: 1, ..Default::default() };
    p.setup = vec![Op::SetPlainText { text: gen_ops::para(r, 3) }.into()];
    p.params.insert("order".into(), r.below(1000) as i64);
    let nt = *r.pick(&[1, 2, 2, 3]);
    for _ in 0..nt {
        let mut v: Vec<Step> = vec![];
        for _ in 0..r.range(1, if nt == 1 { 10 } else { 6 }) {
            v.push(
                match r.weighted(&[4, 3, 3, 2, 2, 2, 2, 1]) {
                    0 => gen_ops::op(r, &m, 1),
                    1 => Op::Subscribe { behaviour: r.below(4) as u8 },
                    2 => match r.below(5) {
                        0 | 1 => Op::StartMarkdown { text: gen_ops::markdown(r, true) },
                        2 => Op::StartHtml { text: gen_ops::html(r, true) },
                        _ => Op::StartDocx { path: "/simdisk/r.docx".into() },
                    },
                    3 => match r.below(4) {
                        0 => Op::OpWait { o: r.below(2) },
                        1 => Op::OpCancel { o: r.below(2) },
                        2 => Op::OpDrop { o: r.below(2) },
                        _ => Op::OpTry { o: r.below(2) },
                    },
                    4 => Op::CloneDoc,
                    5 => Op::DropDoc,
                    6 => match r.below(4) {
                        0 => Op::NewCursor { frac: r.below(65537) as u32 },
                        1 => Op::CloneCursor { c: 0 },
                        2 => Op::DropCursor { c: 0 },
                        _ => Op::Unsubscribe { s: r.below(3) },
                    },
                    _ => {
                        if r.chance(1, 2) {
                            Op::SetHighlighter { kind: r.below(4) as u8 }
                        } else {
                            Op::ReadBlocks
                        }
                    }
                }
                .into(),
            );
        }
        p.threads.push(v);
    }
    super::concurrent_sched(r, &mut p.sched, 10_000);
}
type Gate = (std::sync::Mutex<u32>, std::sync::Condvar);
/// Every long operation to its end (a plan may cancel or abandon its own).
fn warm() {
    // The process-wide table of waiting threads, at its full size.
    let gate: &'static Gate = Box::leak(Box::default());
    let hs: Vec<_> = (0..16)
        .map(|_| {
            spawn(sim::ROLE_BACKGROUND, move || {
                unsafe { parking_lot_core::park(0, || false, || {}, |_, _| {}, parking_lot_core::DEFAULT_PARK_TOKEN, None) };
                *gate.0.lock().unwrap() += 1;
                let _g = gate.1.wait_while(gate.0.lock().unwrap(), |n| *n < 16).unwrap();
                gate.1.notify_all();
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    let doc = TextDocument::new();
    if let Ok(o) = doc.set_markdown("# a\n\n* b `c`\n\n[d](e)") {
        let _ = o.wait();
    }
    if let Ok(o) = doc.set_html("<p>a <b>b</b></p><ul><li>c</li></ul>") {
        let _ = o.wait();
    }
    if let Ok(o) = doc.to_docx("/simdisk/warm.docx") {
        let _ = o.wait();
    }
}
fn once(plan: &'static Plan) {
    let doc = TextDocument::new();
    let mut c0 = Client::new(doc.clone(), 1);
    for s in &plan.setup {
        c0.exec(&s.op);
    }
    let mut clients = vec![c0];
    for _ in 1..plan.threads.len() {
        clients.push(Client::new(doc.clone(), 1));
    }
    // From here on only the threads own handles.
    drop(doc);
    let order = plan.param("order") as usize;
    let hs: Vec<_> = clients
        .into_iter()
        .enumerate()
        .map(|(t, mut c)| {
            spawn(sim::ROLE_CLIENT, move || {
                let mut held = Held::default();
                for s in &plan.threads[t] {
                    let what = step(&mut c, &mut held, &s.op);
                    log(|| format!("T{t} {} -> {what}", serde_json::to_string(&s.op).unwrap()));
                }
                // Let go of everything, in some order.
                for i in 0..7 {
                    match (i + order + t) % 7 {
                        0 => c.doc = None,
                        1 => c.spare.clear(),
                        2 => c.cursors.clear(),
                        3 => c.ops.clear(),
                        4 => c.subs.clear(),
                        5 => c.clip = DocumentFragment::new(),
                        _ => drop(std::mem::take(&mut held)),
                    }
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    // What the callbacks did not drop.
    while let Some(d) = w().stash.pop() {
        drop(d);
    }
    w().cursors.clear();
    sim::quiesce();
}
pub fn run(plan: &'static Plan) -> Check {
    *W.get() = Some(World::default());
    // Once for everything that is initialised lazily and stays.
    warm();
    once(plan);
    w().tokens = vec![];
    let before = sim::heap();
    once(plan);
    if let Some(v) = crate::run::flagged() {
        return Err(v);
    }
    sim::calm();
    sim::quiesce();
    let threads = sim::live(-1);
    if threads != 0 {
        return viol("release: a thread outlives the document", format!("{threads}: {}", sim::describe()));
    }
    for (what, t) in &w().tokens {
        if t.strong_count() > 0 {
            return viol(format!("release: a {what} outlives the document"), format!("{} references", t.strong_count()));
        }
    }
    w().tokens = vec![];
    let after = sim::heap();
    log(|| format!("heap +{} +{}", after.0 - before.0, after.1 - before.1));
    if after.0 - before.0 > 0 {
        return viol("release: memory outlives the document", format!("{} bytes in {} blocks", after.0 - before.0, after.1 - before.1));
    }
    Ok(())
}
