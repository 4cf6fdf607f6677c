//! Editing calls change the text and the cursors exactly as documented, against
//! a reference model made of one character sequence and two numbers per cursor.
use crate::exec::Client;
use crate::gen_ops::{self, Mix};
use crate::plan::{Op, Plan};
use crate::rng::Rng;
use crate::run::{Check, log, viol};
use text_document::*;

pub fn generate(r: &mut Rng, p: &mut Plan) {
    let mut m = Mix { moves: 8, text: 10, clip: 1, reads: 2, ..Default::default() };
    for (w, v, n) in [(&mut m.rich, 2, 2), (&mut m.format, 2, 3), (&mut m.list, 1, 4), (&mut m.replace, 1, 4), (&mut m.history, 2, 3)] {
        if r.chance(1, n) {
            *w = v
        }
    }
    let ncur = r.range(2, 4);
    p.params.insert("cursors".into(), ncur as i64);
    p.setup = gen_ops::origin(r, 5);
    let n = r.range(2, 16);
    p.threads = vec![gen_ops::steps(r, &m, ncur, n)];
}
/// The characters of the generator that continue a grapheme cluster.
fn extends(c: char) -> bool {
    matches!(c, '\u{301}' | '\u{1F3FB}')
}
pub fn next_grapheme(t: &[char], p: usize) -> usize {
    if p >= t.len() {
        return p;
    }
    let mut q = p + 1;
    if t[p] != '\n' {
        while q < t.len() && extends(t[q]) {
            q += 1
        }
    }
    q
}
pub fn prev_grapheme(t: &[char], p: usize) -> usize {
    if p == 0 {
        return 0;
    }
    let mut q = p - 1;
    if t[q] != '\n' {
        while q > 0 && extends(t[q]) && t[q - 1] != '\n' {
            q -= 1
        }
    }
    q
}
#[derive(Clone, Debug, PartialEq)]
struct Model {
    t: Vec<char>,
    cur: Vec<(usize, usize)>,
}
/// What one call did to the text.
struct Edit {
    at: usize,
    removed: usize,
    /// The inserted text, when the model knows it.
    added: Option<String>,
}
fn s(v: &[char]) -> String {
    v.iter().collect()
}
fn name(o: &Op) -> String {
    format!("{o:?}").split([' ', '{']).next().unwrap().to_string()
}
pub fn run(plan: &'static Plan) -> Check {
    let nc = plan.param("cursors").max(1) as usize;
    let doc = TextDocument::new();
    let mut c = Client::new(doc.clone(), nc);
    for st in &plan.setup {
        c.exec(&st.op);
    }
    let read = |c: &Client| -> Model {
        Model {
            t: doc.to_plain_text().unwrap_or_default().chars().collect(),
            cur: (0..nc).map(|i| c.cur(i).map(|k| (k.position(), k.anchor())).unwrap()).collect(),
        }
    };
    if let Some(Op::SetPlainText { text }) = plan.setup.first().map(|s| &s.op) {
        let got = doc.to_plain_text().unwrap_or_default();
        if got != *text {
            return viol("text: set_plain_text and to_plain_text differ", format!("{text:?} / {got:?}"));
        }
    }
    for st in &plan.threads[0] {
        let op = &st.op;
        let b = read(&c);
        let o = c.exec(op);
        let a = read(&c);
        log(|| format!("{} -> {:?} text {:?} cursors {:?}", serde_json::to_string(op).unwrap(), o, s(&a.t), a.cur));
        let end = b.t.len();
        let sel = |k: usize| {
            let (p, q) = b.cur[k % nc];
            (p.min(q), p.max(q))
        };
        // Positions left behind by undo or replace may lie beyond the end.
        if b.cur.iter().any(|&(p, q)| p > end || q > end) && !matches!(op, Op::SetPos { .. } | Op::SetFrac { .. }) {
            for i in 0..nc {
                let (p, q) = a.cur[i];
                if p > a.t.len() || q > a.t.len() {
                    c.exec(&Op::SetPos { c: i, pos: a.t.len() / 2, keep: false });
                }
            }
            continue;
        }
        let bad = |what: &str, want: String| -> Check {
            viol(
                format!("text: {} {what}", name(op)),
                format!("{:?} on text {:?} cursors {:?} gives {:?} {:?} cursors {:?}, expected {want}", op, s(&b.t), b.cur, o, s(&a.t), a.cur),
            )
        };
        if !o.ok {
            if a.t != b.t {
                return bad("failed but changed the text", s(&b.t));
            }
            continue;
        }
        let own: Option<usize>;
        let edit = match op {
            Op::SetPos { c: k, pos, keep } => {
                let k = k % nc;
                // Never inside a grapheme cluster.
                let mut want = (*pos).min(end);
                while want > 0 && want < end && extends(b.t[want]) && b.t[want - 1] != '\n' {
                    want += 1
                }
                // An anchor at the snapped position snaps along.
                let anchor = if *keep && b.cur[k].1 != (*pos).min(end) { b.cur[k].1 } else { want };
                if a.t != b.t || a.cur[k] != (want, anchor) || (0..nc).any(|i| i != k && a.cur[i] != b.cur[i]) {
                    return bad("does not move exactly the cursor", format!("({want}, {anchor})"));
                }
                continue;
            }
            Op::SetFrac { .. } | Op::Move { .. } | Op::Select { .. } => {
                let k = match op {
                    Op::SetFrac { c, .. } | Op::Move { c, .. } | Op::Select { c, .. } => c % nc,
                    _ => 0,
                };
                if a.t != b.t || (0..nc).any(|i| i != k && a.cur[i] != b.cur[i]) || a.cur[k].0 > end || a.cur[k].1 > end.max(b.cur[k].1) {
                    return bad("does not move exactly the cursor", String::new());
                }
                continue;
            }
            Op::InsertText { c: k, text } | Op::InsertFormatted { c: k, text, .. } => {
                own = Some(k % nc);
                let (x, y) = sel(*k);
                Edit { at: x, removed: y - x, added: Some(text.clone()) }
            }
            Op::InsertBlock { c: k } => {
                own = Some(k % nc);
                let (x, y) = sel(*k);
                Edit { at: x, removed: y - x, added: Some("\n".into()) }
            }
            Op::DeleteChar { c: k } => {
                own = Some(k % nc);
                let (x, y) = sel(*k);
                let y = if x == y { next_grapheme(&b.t, x) } else { y };
                Edit { at: x, removed: y - x, added: Some(String::new()) }
            }
            Op::DeletePrev { c: k } => {
                own = Some(k % nc);
                let (x, y) = sel(*k);
                let x = if x == y { prev_grapheme(&b.t, x) } else { x };
                Edit { at: x, removed: y - x, added: Some(String::new()) }
            }
            Op::RemoveSelected { c: k } => {
                own = Some(k % nc);
                let (x, y) = sel(*k);
                if o.val != s(&b.t[x..y]) {
                    return bad("returns the wrong text", s(&b.t[x..y]));
                }
                Edit { at: x, removed: y - x, added: Some(String::new()) }
            }
            Op::InsertPlainFragment { c: k, text } => {
                own = Some(k % nc);
                let (x, y) = sel(*k);
                Edit { at: x, removed: y - x, added: Some(text.clone()) }
            }
            Op::InsertHtml { c: k, .. } | Op::InsertMarkdown { c: k, .. } => {
                own = Some(k % nc);
                let (x, y) = sel(*k);
                Edit { at: x, removed: y - x, added: None }
            }
            Op::Paste { c: k } => {
                if o.val == "skip" {
                    continue;
                }
                own = Some(k % nc);
                let (x, y) = sel(*k);
                Edit { at: x, removed: y - x, added: None }
            }
            Op::InsertList { c: k, .. } => {
                // The new item starts a block of its own.
                let x = b.cur[k % nc].0;
                let e = (x..end).find(|&i| b.t[i] == '\n').unwrap_or(end);
                let st = (0..x).rev().find(|&i| b.t[i] == '\n').map(|i| i + 1).unwrap_or(0);
                if s(&a.t) == s(&b.t[..e]) + "\n" + &s(&b.t[e..]) || s(&a.t) == s(&b.t[..x]) + "\n" + &s(&b.t[x..]) || s(&a.t) == s(&b.t[..st]) + "\n" + &s(&b.t[st..]) {
                    continue;
                }
                return bad("does not insert one block", String::new());
            }
            Op::Copy { .. } => {
                if a != b {
                    return bad("changed the document", String::new());
                }
                continue;
            }
            Op::Replace { query, with, all, case, regex } => {
                let q: Vec<char> = query.chars().collect();
                // The only real regular expression of the generator.
                let mut found = if query == "l+" && *regex {
                    (0..b.t.len()).filter(|&i| b.t[i] == 'l' && (i == 0 || b.t[i - 1] != 'l')).map(|i| (i, b.t[i..].iter().take_while(|c| **c == 'l').count())).collect()
                } else {
                    super::consistency::apart(super::consistency::matches(&b.t, &q, *case))
                };
                if !*all {
                    found.truncate(1);
                }
                let n = found.len();
                let mut want = s(&b.t[..found.first().map_or(end, |m| m.0)]);
                for (i, m) in found.iter().enumerate() {
                    want += with;
                    want += &s(&b.t[m.0 + m.1..found.get(i + 1).map_or(end, |m| m.0)]);
                }
                if s(&a.t) != want || o.val != n.to_string() {
                    return bad("does not replace exactly the matches", format!("{want:?} ({n})"));
                }
                continue;
            }
            Op::Undo | Op::Redo => continue,
            _ => {
                if a != b {
                    return bad("changed the text or a cursor", String::new());
                }
                continue;
            }
        };
        let (pre, post) = (&b.t[..edit.at], &b.t[edit.at + edit.removed..]);
        let added = match &edit.added {
            Some(t) => t.chars().count(),
            None => match a.t.len().checked_sub(pre.len() + post.len()) {
                Some(n) => n,
                None => return bad("lost text around the insertion", format!("{:?} … {:?}", s(pre), s(post))),
            },
        };
        if a.t.len() != pre.len() + added + post.len() || a.t[..pre.len()] != *pre || a.t[pre.len() + added..] != *post || edit.added.as_ref().is_some_and(|t| s(&a.t[edit.at..edit.at + added]) != *t) {
            return bad("does not change exactly the text it should", format!("{:?}+{:?}+{:?}", s(pre), edit.added, s(post)));
        }
        if added == 0 && edit.removed == 0 {
            if a.cur != b.cur && edit.added.is_some() {
                return bad("moved a cursor without changing the text", format!("{:?}", b.cur));
            }
            continue;
        }
        for i in 0..nc {
            for (x, y, which) in [(b.cur[i].0, a.cur[i].0, "position"), (b.cur[i].1, a.cur[i].1, "anchor")] {
                let (lo, hi) = if own == Some(i) {
                    // The caret stays before a block separator that a fragment adds.
                    (edit.at + added - (edit.added.is_none() && added > 0) as usize, edit.at + added)
                } else if x <= edit.at {
                    (x, x)
                } else if x <= edit.at + edit.removed {
                    (edit.at, edit.at + added)
                } else {
                    (x - edit.removed + added, x - edit.removed + added)
                };
                if y < lo || y > hi {
                    return bad(&format!("leaves the {which} of {} cursor wrong", if own == Some(i) { "its own" } else { "another" }), format!("cursor {i} {which} in {lo}..={hi}"));
                }
            }
        }
    }
    Ok(())
}
