//! Every event reaches every subscriber exactly once, for as long as it subscribes.
use crate::exec::Client;
use crate::gen_ops::{self, Mix};
use crate::plan::{Op, Plan, Step};
use crate::rng::Rng;
use crate::run::{Check, SimCell, count, flag, log, spawn, viol};
use crate::sim;
use std::collections::BTreeMap;
use text_document::*;

struct Sub {
    behaviour: u8,
    handle: Option<Subscription>,
    /// Position in the polled stream before subscribing and after.
    from: (usize, usize),
    /// Position in the polled stream before unsubscribing and after, thread.
    to: Option<(usize, usize, i32)>,
    got: Vec<String>,
    /// Deliveries which began after the subscription had ended, by thread.
    late: BTreeMap<i32, u32>,
    inside_callback: bool,
}
#[derive(Default)]
struct World {
    doc: Option<TextDocument>,
    subs: Vec<Sub>,
    polled: Vec<String>,
    edits_left: u32,
    depth: BTreeMap<i32, u32>,
    edited: bool,
}
static W: SimCell<Option<World>> = SimCell::new(None);
fn w() -> &'static mut World {
    W.get().as_mut().unwrap()
}
fn doc() -> TextDocument {
    w().doc.as_ref().unwrap().clone()
}
/// Poll and append in one step (the wait for the lock comes before the poll).
fn poll() -> usize {
    let d = doc();
    sim::atomically(|| {
        let v = d.poll_events();
        w().polled.extend(v.iter().map(|e| format!("{e:?}")));
        w().polled.len()
    })
}
fn subscribe(behaviour: u8) {
    let before = poll();
    let n = w().subs.len();
    w().subs.push(Sub { behaviour, handle: None, from: (before, usize::MAX), to: None, got: vec![], late: BTreeMap::new(), inside_callback: inside() });
    let d = doc();
    let h = d.on_change(move |e| deliver(n, e));
    let after = poll();
    let s = &mut w().subs[n];
    s.from.1 = after;
    s.handle = Some(h);
}
fn inside() -> bool {
    w().depth.get(&sim::tid()).is_some_and(|d| *d > 0)
}
fn unsubscribe(n: usize) {
    let before = poll();
    let Some(h) = w().subs[n].handle.take() else { return };
    drop(h);
    let inside = inside();
    let s = &mut w().subs[n];
    s.to = Some((before, usize::MAX, sim::tid()));
    s.inside_callback |= inside;
    let after = poll();
    w().subs[n].to = Some((before, after, sim::tid()));
}
fn deliver(n: usize, e: DocumentEvent) {
    let tid = sim::tid();
    let behaviour = {
        let s = &mut w().subs[n];
        if let Some((_, _, by)) = s.to {
            let k = s.late.entry(tid).or_insert(0);
            *k += 1;
            // The very delivery that ended the subscription is not a late one.
            if by == tid {
                flag("events: delivered on the thread which had already unsubscribed", format!("subscriber {n}: {e:?}"));
            } else if *k > 1 {
                flag("events: still delivered after unsubscribing", format!("subscriber {n}: {e:?}"));
            }
        }
        s.got.push(format!("{e:?}"));
        s.behaviour
    };
    *w().depth.entry(tid).or_insert(0) += 1;
    let d = doc();
    match behaviour {
        1 => {
            let _ = d.to_plain_text();
            let _ = (d.block_count(), d.can_undo(), d.snapshot_flow().elements.len());
        }
        2 | 3 if w().edits_left > 0 => {
            w().edits_left -= 1;
            w().edited = true;
            if behaviour == 2 {
                let _ = d.cursor().insert_text("cb ");
            } else {
                let _ = d.undo();
            }
        }
        4 => unsubscribe(n),
        5 => {
            if w().edits_left > 0 {
                w().edits_left -= 1;
                subscribe(0);
            }
        }
        6 => {
            // Another one, possibly still due for this very event.
            if let Some(k) = (0..w().subs.len()).find(|&k| k > 0 && k != n && w().subs[k].handle.is_some()) {
                unsubscribe(k);
            }
        }
        7 => {
            let c = d.cursor();
            c.move_position(MoveOperation::End, MoveMode::MoveAnchor, 1);
            drop(c.clone());
        }
        _ => {}
    }
    *w().depth.entry(tid).or_insert(0) -= 1;
}
pub fn generate(r: &mut Rng, p: &mut Plan) {
    let m = Mix { moves: 2, text: 8, rich: 2, format: 2, list: 2, replace: 1, doc: 1, history: 3, ..Default::default() };
    p.setup = vec![Op::SetPlainText { text: gen_ops::para(r, 3) }.into()];
    let sequential = r.chance(2, 5);
    let nt = if sequential { 1 } else { r.range(2, 3) };
    let behaviours: &[u8] = if r.chance(1, 2) { &[0, 0, 1, 7] } else { &[0, 1, 2, 3, 4, 5, 6, 7] };
    for t in 0..nt {
        let n = r.range(2, if nt == 1 { 10 } else { 6 });
        let mut v: Vec<Step> = vec![];
        for _ in 0..n {
            v.push(
                match r.weighted(&[3, 2, 2, 8, if sequential { 0 } else { 2 }]) {
                    0 => Op::Subscribe { behaviour: *r.pick(behaviours) },
                    1 => Op::Unsubscribe { s: r.below(4) },
                    2 => Op::Poll,
                    3 => {
                        let mut o = gen_ops::op(r, &m, 1);
                        if let Op::SetModified { .. } = o {
                            o = Op::Undo;
                        }
                        o
                    }
                    _ => match r.below(5) {
                        0 => Op::StartHtml { text: gen_ops::html(r, false) },
                        1 => Op::StartMarkdown { text: gen_ops::markdown(r, false) },
                        2 => Op::StartDocx { path: "/simdisk/e.docx".into() },
                        3 => Op::OpCancel { o: 0 },
                        _ => Op::OpWait { o: 0 },
                    },
                }
                .into(),
            );
        }
        let _ = t;
        p.threads.push(v);
    }
    if !sequential {
        super::concurrent_sched(r, &mut p.sched, 8_000);
    }
}
fn multiset(v: &[String]) -> BTreeMap<&str, i64> {
    let mut m = BTreeMap::new();
    for s in v {
        *m.entry(s.as_str()).or_insert(0) += 1;
    }
    m
}
/// Something in `a` more often than in `b`.
fn excess<'a>(a: &'a [String], b: &[String]) -> Option<(&'a str, i64, i64)> {
    let mb = multiset(b);
    multiset(a).into_iter().map(|(e, k)| (e, k, mb.get(e).copied().unwrap_or(0))).find(|(_, k, n)| k > n)
}
pub fn run(plan: &'static Plan) -> Check {
    let doc = TextDocument::new();
    let mut c0 = Client::new(doc.clone(), 1);
    for s in &plan.setup {
        c0.exec(&s.op);
    }
    doc.poll_events();
    *W.get() = Some(World { doc: Some(doc.clone()), edits_left: 4, ..Default::default() });
    // Alive from beginning to end.
    subscribe(0);
    let n = plan.threads.len();
    let mut clients = vec![c0];
    for _ in 1..n {
        clients.push(Client::new(doc.clone(), 1));
    }
    let hs: Vec<_> = clients
        .into_iter()
        .enumerate()
        .map(|(t, mut c)| {
            spawn(sim::ROLE_CLIENT, move || {
                for s in &plan.threads[t] {
                    let what = match &s.op {
                        Op::Subscribe { behaviour } => {
                            subscribe(*behaviour);
                            String::new()
                        }
                        Op::Unsubscribe { s } => {
                            let live: Vec<usize> = (1..w().subs.len()).filter(|&k| w().subs[k].handle.is_some()).collect();
                            if !live.is_empty() {
                                unsubscribe(live[s % live.len()]);
                            }
                            String::new()
                        }
                        Op::Poll => poll().to_string(),
                        o => format!("{:?}", c.exec(o)),
                    };
                    log(|| format!("T{t} {} -> {what}", serde_json::to_string(&s.op).unwrap()));
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    sim::calm();
    sim::quiesce();
    poll();
    if let Some(v) = crate::run::flagged() {
        return Err(v);
    }
    let sequential = n == 1;
    let p = &w().polled;
    count("deliveries checked", w().subs.iter().map(|s| s.got.len() as u64).sum());
    log(|| format!("polled {p:?}"));
    for (k, s) in w().subs.iter().enumerate() {
        let what = |d: String| format!("subscriber {k} (behaviour {}, subscribed at {:?}, unsubscribed at {:?}) got {:?}; {d}; polled {:?}", s.behaviour, s.from, s.to, s.got, p);
        let end = s.to.map(|t| t.1.min(p.len())).unwrap_or(p.len());
        if let Some((e, got, queued)) = excess(&s.got, &p[s.from.0..end]) {
            return viol(if queued > 0 { "events: delivered twice" } else { "events: delivered although not subscribed" }, what(format!("{got} of {queued} x {e}")));
        }
        let must = match s.to {
            None => p.len(),
            Some((before, _, _)) if sequential && !s.inside_callback => before,
            Some(_) => continue,
        };
        if s.from.1 <= must
            && let Some((e, queued, got)) = excess(&p[s.from.1..must], &s.got)
        {
            return viol("events: not delivered", what(format!("{got} of {queued} x {e}")));
        }
        if sequential && !w().edited && !s.inside_callback && s.from.0 == s.from.1 && s.got[..] != p[s.from.0..must] {
            return viol("events: delivered in another order", what(String::new()));
        }
    }
    Ok(())
}
