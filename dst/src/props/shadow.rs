//! Highlighting is what a pass of the highlighter over the whole document gives, at any
//! moment, and shows in nothing but the formats of the fragments.
use crate::dump;
use crate::exec::Client;
use crate::gen_ops::{self, Mix};
use crate::highlight;
use crate::plan::{Op, Plan, Step};
use crate::rng::Rng;
use crate::run::{Check, Viol, flag, flagged, log, panicked, spawn, viol};
use crate::sim;
use text_document::*;

pub fn generate(r: &mut Rng, p: &mut Plan) {
    let mut m: Mix = super::consistency::mix_for(r);
    m.history = 4;
    m.reset = r.below(2) as u32;
    p.setup = gen_ops::origin(r, 6);
    if r.chance(1, 2) {
        p.setup.push(Op::SetHighlighter { kind: r.range(4, 6) as u8 }.into());
    }
    let mut v: Vec<Step> = vec![];
    for _ in 0..r.range(3, 16) {
        v.push(match r.below(12) {
            0 => Op::SetHighlighter { kind: *r.pick(&[0, 4, 5, 5, 6]) }.into(),
            1 if r.chance(1, 2) => Op::Rehighlight.into(),
            1 => Op::RehighlightBlock { n: r.below(4) }.into(),
            2 | 3 => comment(r),
            4 => Op::Sleep { ms: *r.pick(&[10, 3000]) }.into(),
            _ => gen_ops::op(r, &m, 2).into(),
        });
    }
    p.threads = vec![v];
}
/// Opens or closes a comment: the blocks that follow change.
fn comment(r: &mut Rng) -> Step {
    let t = r.pick(&["/*", "*/", "/", "*", "/* */"]).to_string();
    match r.below(5) {
        0 => Op::Replace { query: "a".into(), with: t, all: r.chance(1, 2), case: false, regex: false }.into(),
        1 => Op::DeleteChar { c: r.below(2) }.into(),
        _ => Op::InsertText { c: r.below(2), text: t }.into(),
    }
}
fn chars(v: &[FragmentContent]) -> Vec<(char, &TextFormat)> {
    v.iter()
        .flat_map(|f| match f {
            FragmentContent::Text { text, format, .. } => text.chars().map(|c| (c, format)).collect::<Vec<_>>(),
            FragmentContent::Image { format, .. } => vec![('\u{fffc}', format)],
        })
        .collect()
}
/// Whether the block shows what the highlighter asks for, on top of its formats if known;
/// and the state it leaves.
fn shown(kind: u8, prev: i64, b: &BlockSnapshot, base: Option<&BlockSnapshot>) -> std::result::Result<i64, String> {
    let (spans, st) = if kind == 0 { (vec![], -1) } else { highlight::spans(kind, &b.text, prev) };
    let c = chars(&b.fragments);
    let base = base.map(|b| chars(&b.fragments));
    if c.iter().map(|x| x.0).collect::<String>() != b.text || base.as_ref().is_some_and(|d| d.len() != c.len()) {
        return Err(format!("fragments {:?} of {:?}", c.iter().map(|x| x.0).collect::<String>(), b.text));
    }
    for (i, (ch, f)) in c.iter().enumerate() {
        let mut want = match &base {
            Some(d) => d[i].1.clone(),
            None => TextFormat { foreground_color: None, background_color: None, underline_color: None, tooltip: None, ..(*f).clone() },
        };
        for (_, _, h) in spans.iter().filter(|s| s.0 <= i && i < s.0 + s.1) {
            want.foreground_color = h.foreground_color.or(want.foreground_color);
            want.background_color = h.background_color.or(want.background_color);
            want.underline_color = h.underline_color.or(want.underline_color);
            want.tooltip = h.tooltip.clone().or(want.tooltip);
        }
        if want != **f {
            return Err(format!("{ch:?} at {i} of {:?} (state before: {prev}) is {} instead of {}", b.text, dump::short(format!("{f:?}")), dump::short(format!("{want:?}"))));
        }
    }
    Ok(st)
}
fn document(kind: u8, doc: &TextDocument, plain: Option<&TextDocument>) -> Check {
    let w = super::consistency::walk(doc);
    let p = plain.map(super::consistency::walk);
    let mut st = -1;
    for (i, b) in w.blocks.iter().enumerate() {
        match shown(kind, st, b, p.as_ref().and_then(|p| p.blocks.get(i))) {
            Ok(s) => st = s,
            Err(e) => return viol("highlight: not what a pass over the document gives", format!("kind {kind}, block {i} of {}: {e}", w.blocks.len())),
        }
    }
    Ok(())
}
/// What a highlighter must not change.
fn rest(doc: &TextDocument) -> dump::Dump {
    dump::content(doc, &["pic".into(), "img2".into()]).without(&["flow"])
}
fn cursors(c: &Client) -> Vec<String> {
    c.cursors
        .iter()
        .flatten()
        .map(|k| format!("{}..{} {:?} {} {:?} {:?}", k.anchor(), k.position(), k.selected_text().ok(), dump::short(format!("{:?}", k.char_format().ok())), k.block_format().ok(), k.current_list().map(|l| l.count())))
        .collect()
}
pub fn run(plan: &'static Plan) -> Check {
    let (a, b) = (TextDocument::new(), TextDocument::new());
    let mut ca = Client::new(a.clone(), 2);
    let mut cb = Client::new(b.clone(), 2);
    let mut kind = 0;
    for s in plan.setup.iter().chain(&plan.threads[0]) {
        // What an edit through a cursor beyond the end of a replaced document does is not specified.
        let n = b.to_plain_text().unwrap_or_default().chars().count();
        for c in [&ca, &cb] {
            for (i, k) in c.cursors.iter().flatten().enumerate() {
                if k.position() > n || k.anchor() > n {
                    k.set_position(i * n / 2, MoveMode::MoveAnchor);
                }
            }
        }
        let oa = ca.exec(&s.op);
        let ob = match &s.op {
            Op::SetHighlighter { kind: k } => {
                kind = *k;
                oa.clone()
            }
            Op::Rehighlight | Op::RehighlightBlock { .. } | Op::Sleep { .. } => oa.clone(),
            o => cb.exec(o),
        };
        log(|| format!("{} -> {oa:?}", serde_json::to_string(&s.op).unwrap()));
        let plain = !matches!(s.op, Op::ReadFlow | Op::ReadBlocks | Op::ReadBlockAt { .. });
        let d = |what: &str, x: String, y: String| -> Check { viol(format!("highlight: changes {what}"), format!("after {:?}: {x} instead of {y}", s.op)) };
        if oa.ok != ob.ok || (plain && oa.val != ob.val) {
            return d("the result of a call", format!("{oa:?}"), format!("{ob:?}"));
        }
        document(kind, &a, Some(&b))?;
        if let Some((n, m)) = rest(&b).diff(&rest(&a)) {
            return viol(format!("highlight: changes the document: {n}"), m);
        }
        let (x, y) = (cursors(&ca), cursors(&cb));
        if x != y {
            return d("what a cursor sees", format!("{x:?}"), format!("{y:?}"));
        }
        if dump::flags(&a) != dump::flags(&b) {
            return d("the history", dump::flags(&a), dump::flags(&b));
        }
        let (x, y) = (dump::events(&a.poll_events()), dump::events(&b.poll_events()));
        if x != y {
            return d("the events", x, y);
        }
    }
    Ok(())
}

pub fn gen_threads(r: &mut Rng, p: &mut Plan) {
    // Replacing the document leaves cursors beyond its end, and what they insert is not specified.
    let whole = r.chance(1, 2);
    let m = Mix { text: 8, rich: 3 * !whole as u32, format: 3, list: 1, moves: 4, replace: 2, history: 3, clip: !whole as u32, reset: whole as u32, ..Default::default() };
    p.setup = gen_ops::origin(r, 6);
    p.params.insert("kind".into(), r.range(4, 6) as i64);
    for _ in 0..r.range(2, 3) {
        let n = r.range(1, 5);
        p.threads.push(
            (0..n)
                .map(|_| match r.below(12) {
                    0 => Op::Rehighlight.into(),
                    1 => Op::RehighlightBlock { n: r.below(4) }.into(),
                    2 if whole => Op::StartMarkdown { text: gen_ops::markdown(r, false) + "\n\n/* c\n\nd" }.into(),
                    3 if whole => Op::StartHtml { text: gen_ops::html(r, false) + "<p>/* c</p><p>d</p>" }.into(),
                    4 | 5 => comment(r),
                    6..=8 => Op::Check.into(),
                    _ => gen_ops::op(r, &m, 2).into(),
                })
                .collect(),
        );
    }
    super::concurrent_sched(r, &mut p.sched, 20_000);
}
pub fn run_threads(plan: &'static Plan) -> Check {
    let doc = TextDocument::new();
    let mut c = Client::new(doc.clone(), 2);
    for s in &plan.setup {
        c.exec(&s.op);
    }
    let kind = plan.param("kind") as u8;
    doc.set_syntax_highlighter(highlight::make(kind));
    let h: Vec<_> = (0..plan.threads.len())
        .map(|t| {
            let mut k = Client::new(doc.clone(), 2);
            let doc = doc.clone();
            spawn(sim::ROLE_CLIENT, move || {
                for s in &plan.threads[t] {
                    if s.op == Op::Check {
                        if let Err(v) = document(kind, &doc, None) {
                            flag(v.class, v.detail);
                        }
                        // One block, read piece by piece: what a snapshot of it shows is of that moment.
                        if let (4, Some(b)) = (kind, doc.blocks().last()) {
                            if let Err(e) = shown(kind, -1, &b.snapshot(), None) {
                                flag("highlight: a block's snapshot shows another text's highlighting", e);
                            }
                        }
                        log(|| format!("T{t} check"));
                        continue;
                    }
                    let o = k.exec(&s.op);
                    log(|| format!("T{t} {} -> {o:?}", serde_json::to_string(&s.op).unwrap()));
                }
            })
        })
        .collect();
    for t in h {
        let _ = t.join();
    }
    sim::quiesce();
    if let Some(v) = flagged() {
        return Err(v);
    }
    if let Some(m) = panicked() {
        return Err(Viol { class: "highlight: panic".into(), detail: m });
    }
    sim::calm();
    document(kind, &doc, None)?;
    let before = rest(&doc);
    doc.set_syntax_highlighter(None);
    match before.diff(&rest(&doc)) {
        Some((n, m)) => viol(format!("highlight: changes the document: {n}"), m),
        None => document(0, &doc, None),
    }
}
