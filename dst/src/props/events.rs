//! Events: delivered exactly once, and sufficient to follow the document.
use crate::dump;
use crate::exec::Client;
use crate::gen_ops::{self, Mix};
use crate::plan::{Op, Plan};
use crate::rng::Rng;
use crate::run::{Check, log, viol};
use text_document::*;

fn name(o: &Op) -> String {
    format!("{o:?}").split([' ', '{']).next().unwrap().to_string()
}
// ------------------------------------------------ an observer stays in step
pub fn gen_observer(r: &mut Rng, p: &mut Plan) {
    let mut m: Mix = super::consistency::mix_for(r);
    m.meta = r.below(2) as u32;
    p.setup = gen_ops::origin(r, 4);
    let n = r.range(2, 14);
    p.threads = vec![gen_ops::steps(r, &m, 2, n)];
}
pub fn run_observer(plan: &'static Plan) -> Check {
    let doc = TextDocument::new();
    let mut c = Client::new(doc.clone(), 2);
    for s in &plan.setup {
        c.exec(&s.op);
    }
    doc.poll_events();
    let read = || -> Vec<char> { doc.to_plain_text().unwrap_or_default().chars().collect() };
    let shape = || dump::flow_lines(&doc, false);
    let mut blocks = doc.block_count();
    let elements = || -> Vec<i64> {
        doc.flow()
            .iter()
            .map(|e| match e {
                FlowElement::Block(b) => b.id() as i64,
                FlowElement::Table(t) => -(t.id() as i64),
                FlowElement::Frame(f) => -(f.id() as i64),
            })
            .collect()
    };
    // What the observer believes the flow to be; inserted elements are unknown (0)
    // until it re-reads them at the end of the call, as the event invites it to.
    let mut flow = elements();
    let mut hist = (doc.can_undo(), doc.can_redo());
    for st in &plan.threads[0] {
        let op = &st.op;
        // A cursor left beyond the end by a replaced document is tolerated,
        // but what it then edits is not specified.
        let n = read().len();
        for (i, k) in c.cursors.iter().flatten().enumerate() {
            if k.position() > n || k.anchor() > n {
                k.set_position(i * n / 2, MoveMode::MoveAnchor);
            }
        }
        let old = read();
        let shape0 = shape();
        let o = c.exec(op);
        let ev = doc.poll_events();
        log(|| format!("{} -> {:?} events {}", serde_json::to_string(op).unwrap(), o, dump::events(&ev)));
        let new = read();
        let shape1 = shape();
        let mut reset = false;
        let mut fmt = false;
        // what the contents events leave untouched
        let (mut pre, mut post, mut len) = (old.len() as i64, old.len() as i64, old.len() as i64);
        let mut contents = 0;
        let mut vague = false;
        for e in &ev {
            match e {
                DocumentEvent::ContentsChanged { position, chars_removed, chars_added, .. } => {
                    contents += 1;
                    let (p, r, a) = (*position as i64, *chars_removed as i64, *chars_added as i64);
                    vague |= p == 0 && r == 0 && a == 0;
                    pre = pre.min(p);
                    post = post.min(len - p - r);
                    len += a - r;
                }
                DocumentEvent::FormatChanged { .. } => fmt = true,
                DocumentEvent::BlockCountChanged(n) => blocks = *n,
                DocumentEvent::FlowElementsInserted { flow_index, count } => {
                    if *flow_index > flow.len() {
                        return viol("events: elements inserted beyond the flow", format!("{op:?}: {}", dump::events(&ev)));
                    }
                    flow.splice(flow_index..flow_index, vec![0; *count]);
                }
                DocumentEvent::FlowElementsRemoved { flow_index, count } => {
                    if flow_index + count > flow.len() {
                        return viol("events: elements removed beyond the flow", format!("{op:?}: {}", dump::events(&ev)));
                    }
                    flow.drain(*flow_index..flow_index + count);
                }
                DocumentEvent::DocumentReset => {
                    reset = true;
                    flow = elements();
                }
                DocumentEvent::UndoRedoChanged { can_undo, can_redo } => hist = (*can_undo, *can_redo),
                _ => {}
            }
        }
        let s = |v: &[char]| v.iter().collect::<String>();
        let bad = |what: &str, d: String| -> Check { viol(format!("events: {what} after {}", name(op)), format!("{op:?} turns {:?} into {:?}, announces {}; {d}", s(&old), s(&new), dump::events(&ev))) };
        if !o.ok {
            continue;
        }
        if !reset && !vague {
            if contents == 0 && old != new {
                return bad("text change not announced", String::new());
            }
            if contents > 0 {
                let n = new.len() as i64;
                if post < 0 || len != n || pre > n || post > n || old[..pre as usize] != new[..pre as usize] || old[old.len() - post as usize..] != new[new.len() - post as usize..] {
                    return bad("announced text change is wrong", format!("untouched prefix {pre}, untouched suffix {post}, new length {len}"));
                }
            }
        }
        if !reset && contents == 0 && !fmt && shape0 != shape1 {
            return bad("layout change not announced", format!("{:?}", dump::first_diff(&shape0, &shape1)));
        }
        if blocks != doc.block_count() {
            return bad("announced block count is stale", format!("{blocks} instead of {}", doc.block_count()));
        }
        let now = elements();
        if flow.len() == now.len() {
            for (k, n) in flow.iter_mut().zip(&now) {
                if *k == 0 {
                    *k = *n
                }
            }
        }
        if flow != now {
            return bad("announced flow elements are stale", format!("{flow:?} instead of {now:?}"));
        }
        if hist != (doc.can_undo(), doc.can_redo()) {
            return bad("announced undo availability is stale", format!("{hist:?}"));
        }
    }
    Ok(())
}
