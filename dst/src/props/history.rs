//! Undo and redo are exact.
use crate::dump::{self, Dump};
use crate::exec::Client;
use crate::gen_ops::{self, Mix};
use crate::plan::{Op, Plan};
use crate::rng::Rng;
use crate::run::{Check, log, viol};
use text_document::*;

pub fn generate(r: &mut Rng, p: &mut Plan) {
    let mut m: Mix = super::consistency::mix_for(r);
    m.meta = 1;
    m.doc = 0;
    p.setup = gen_ops::origin(r, 4);
    let n = r.range(2, 14);
    let mut st = gen_ops::steps(r, &m, 2, n);
    // Redoing a command that names a block or list by id after its creation was
    // itself redone is the known finding K1: a history has the one or the other.
    if r.chance(1, 2) {
        st.retain(|s| !by_id(&s.op));
    } else {
        st.retain(|s| s.op != Op::Redo);
    }
    // Properly bracketed edit blocks, one sometimes inside another.
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 3) {
            let a = r.below(st.len() + 1);
            let b = (a + r.range(0, 5)).min(st.len());
            st.insert(b, Op::EndEdit { c: r.below(2) }.into());
            st.insert(a, Op::BeginEdit { c: r.below(2) }.into());
        }
    }
    p.threads = vec![st];
}
/// Commands that name a block or a list by its id.
fn by_id(o: &Op) -> bool {
    matches!(o, Op::SetListFormat { .. } | Op::AddToList { .. } | Op::RemoveFromList { .. } | Op::RemoveListItem { .. })
}
fn name(o: &Op) -> String {
    format!("{o:?}").split([' ', '{']).next().unwrap().to_string()
}
struct Entry {
    dump: Dump,
    op: String,
    /// Consecutive entries of one kind may form one step (0: never).
    text: u8,
    visible: bool,
}
fn is_edit(o: &Op) -> bool {
    !matches!(o, Op::SetPos { .. } | Op::SetFrac { .. } | Op::Move { .. } | Op::Select { .. } | Op::IntoCell { .. } | Op::SelectCells { .. } | Op::Copy { .. } | Op::SetModified { .. })
        && !format!("{o:?}").starts_with("Read")
}
fn coalesce(o: &Op) -> u8 {
    match o {
        Op::InsertText { .. } => 1,
        Op::DeleteChar { .. } | Op::DeletePrev { .. } | Op::RemoveSelected { .. } => 2,
        _ => 0,
    }
}
/// Entries that one call may step over from `i`: those without visible effect
/// freely, plus one visible unit (a single edit, or a run of typing).
fn reach(h: &[Entry], i: usize, back: bool) -> Vec<usize> {
    let mut out = vec![];
    let mut unit: Option<u8> = None;
    let mut j = i;
    loop {
        let e = if back {
            if j == 0 {
                break;
            }
            j
        } else {
            if j + 1 >= h.len() {
                break;
            }
            j + 1
        };
        if h[e].visible {
            match unit {
                None => unit = Some(h[e].text),
                Some(k) if k > 0 && h[e].text == k => {}
                _ => break,
            }
        }
        j = if back { j - 1 } else { j + 1 };
        out.push(j);
    }
    out
}
pub fn run(plan: &'static Plan) -> Check {
    let names = vec!["pic".to_string(), "img2".to_string()];
    let doc = TextDocument::new();
    let mut c = Client::new(doc.clone(), 2);
    for s in &plan.setup {
        c.exec(&s.op);
    }
    let d = |doc: &TextDocument| dump::content(doc, &names).without(&[]);
    let mut hist = vec![Entry { dump: d(&doc), op: "setup".into(), text: 0, visible: false }];
    let mut cur: Vec<usize> = vec![0];
    let mut tail: Vec<Op> = vec![Op::Undo; plan.threads[0].len() + 2];
    if plan.param("redo_ids") == 1 || !plan.threads[0].iter().any(|s| by_id(&s.op)) {
        tail.extend(vec![Op::Redo; plan.threads[0].len() + 2]);
    }
    let opened = plan.threads[0].iter().filter(|s| matches!(s.op, Op::BeginEdit { .. })).count();
    tail.splice(0..0, vec![Op::EndEdit { c: 0 }; opened]);
    let ops: Vec<&Op> = plan.threads[0].iter().map(|s| &s.op).chain(tail.iter()).collect();
    let mut depth = 0;
    for op in ops {
        // The inside of an edit block is one step; undo and redo wait for its end.
        match op {
            Op::BeginEdit { .. } => {
                depth += 1;
                c.exec(op);
                continue;
            }
            Op::EndEdit { .. } if depth == 0 => continue,
            Op::EndEdit { .. } if depth > 1 => {
                depth -= 1;
                c.exec(op);
                continue;
            }
            Op::EndEdit { .. } => depth = 0,
            Op::Undo | Op::Redo if depth > 0 => continue,
            _ if depth > 0 => {
                let before = d(&doc);
                let o = c.exec(op);
                log(|| format!("  {} -> {:?}", serde_json::to_string(op).unwrap(), o));
                if !o.ok {
                    if let Some((_, m)) = before.diff(&d(&doc)) {
                        return viol(format!("history: failed {} changed the document", name(op)), format!("{} / {m}", o.val));
                    }
                }
                continue;
            }
            _ => {}
        }
        let (cu, cr) = (doc.can_undo(), doc.can_redo());
        let o = c.exec(op);
        let now = d(&doc);
        log(|| format!("{} -> {:?} text {:?}", serde_json::to_string(op).unwrap(), o, now.get("text")));
        let here = hist[cur[0]].dump.clone();
        match op {
            Op::Undo | Op::Redo => {
                let back = matches!(op, Op::Undo);
                let avail = if back { cu } else { cr };
                if avail && !o.ok {
                    return viol(format!("history: {} fails", name(op)), o.val);
                }
                if !avail {
                    if let Some((_, m)) = here.diff(&now) {
                        return viol(format!("history: unavailable {} changed the document", name(op)), m);
                    }
                    // everything visible must have been stepped over
                    cur.retain(|&i| if back { hist[1..=i].iter().all(|e| !e.visible) } else { hist[i + 1..].iter().all(|e| !e.visible) });
                    if cur.is_empty() {
                        return viol(format!("history: {} unavailable although a step remains", name(op)), "");
                    }
                    continue;
                }
                let mut next: Vec<usize> = vec![];
                let mut any = false;
                for &i in &cur {
                    for j in reach(&hist, i, back) {
                        any = true;
                        if hist[j].dump == now && !next.contains(&j) {
                            next.push(j)
                        }
                    }
                }
                if next.is_empty() {
                    if !any {
                        return viol(format!("history: {} available without a step", name(op)), "");
                    }
                    let i = cur[0];
                    let (e, t) = if back { (i, i.saturating_sub(1)) } else { ((i + 1).min(hist.len() - 1), (i + 1).min(hist.len() - 1)) };
                    let m = hist[t].dump.diff(&now).unwrap_or_default();
                    return viol(format!("history: {} of {} is not exact ({})", name(op), hist[e].op, m.0), m.1);
                }
                cur = next;
            }
            _ => {
                let visible = now != here;
                if visible && !o.ok {
                    return viol(format!("history: failed {} changed the document", name(op)), format!("{} / {:?}", o.val, here.diff(&now)));
                }
                if !o.ok || !is_edit(op) {
                    if (doc.can_undo(), doc.can_redo()) != (cu, cr) {
                        return viol(format!("history: {} without effect changed undo/redo availability", name(op)), o.val);
                    }
                    continue;
                }
                if visible && !doc.can_undo() {
                    return viol(format!("history: {} cannot be undone", name(op)), "");
                }
                if visible && doc.can_redo() {
                    return viol(format!("history: redo still available after {}", name(op)), "");
                }
                if !visible && doc.can_redo() {
                    continue; // pushed nothing
                }
                let i = *cur.iter().max().unwrap();
                hist.truncate(i + 1);
                hist.push(Entry { dump: now, op: name(op), text: coalesce(op), visible });
                cur = if visible { vec![i + 1] } else { let mut c = cur.clone(); c.retain(|x| *x <= i); c.push(i + 1); c };
            }
        }
    }
    Ok(())
}
