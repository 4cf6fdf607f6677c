//! All views of the document describe the same document.
use crate::exec::Client;
use crate::gen_ops::{self, Mix};
use crate::plan::Plan;
use crate::rng::Rng;
use crate::run::{Check, log, viol};
use text_document::*;

pub struct Walk {
    pub blocks: Vec<BlockSnapshot>,
    pub tables: usize,
    pub frames: usize,
    pub lists: std::collections::BTreeSet<usize>,
    pub images: usize,
}
pub fn walk(doc: &TextDocument) -> Walk {
    fn go(e: &[FlowElementSnapshot], w: &mut Walk) {
        for x in e {
            match x {
                FlowElementSnapshot::Block(b) => w.blocks.push(b.clone()),
                FlowElementSnapshot::Table(t) => {
                    w.tables += 1;
                    for c in &t.cells {
                        w.blocks.extend(c.blocks.iter().cloned());
                    }
                }
                FlowElementSnapshot::Frame(f) => {
                    w.frames += 1;
                    go(&f.elements, w);
                }
            }
        }
    }
    let mut w = Walk { blocks: vec![], tables: 0, frames: 0, lists: Default::default(), images: 0 };
    go(&doc.snapshot_flow().elements, &mut w);
    for b in &w.blocks {
        if let Some(l) = &b.list_info {
            w.lists.insert(l.list_id);
        }
        w.images += b.fragments.iter().filter(|f| matches!(f, FragmentContent::Image { .. })).count();
    }
    w
}
/// Which invariants to include.
pub fn views(doc: &TextDocument) -> Check {
    let w = walk(doc);
    let text = doc.to_plain_text().map_err(|e| crate::run::Viol { class: "views: plain text unavailable".into(), detail: e.to_string() })?;
    // 1. the blocks of the flow are exactly the blocks of the document
    let mut a: Vec<usize> = w.blocks.iter().map(|b| b.block_id).collect();
    let blocks = doc.blocks();
    let mut b: Vec<usize> = blocks.iter().map(|b| b.id()).collect();
    a.sort();
    b.sort();
    if a != b {
        return viol("views: flow and block list disagree", format!("flow blocks {a:?}, document blocks {b:?}"));
    }
    // 2. fragments tile the block text
    for b in &w.blocks {
        let n = b.text.chars().count();
        let mut at = 0;
        for f in &b.fragments {
            match f {
                FragmentContent::Text { text, offset, length, .. } => {
                    if *offset != at || text.chars().count() != *length {
                        return viol("views: fragments do not tile the block", format!("block text {:?} fragments {:?}", b.text, b.fragments));
                    }
                    at += length;
                }
                FragmentContent::Image { offset, .. } => {
                    if *offset != at {
                        return viol("views: fragments do not tile the block", format!("block text {:?} fragments {:?}", b.text, b.fragments));
                    }
                    at += 1;
                }
            }
        }
        if at != b.length {
            return viol("views: fragments do not cover the block", format!("block length {} text {:?} fragments {:?}", b.length, b.text, b.fragments));
        }
        let _ = n;
    }
    // 3. positions
    let mut sorted: Vec<&BlockSnapshot> = w.blocks.iter().collect();
    sorted.sort_by_key(|b| b.position);
    let mut at = 0;
    for (i, b) in sorted.iter().enumerate() {
        if b.position != at {
            return viol("views: block positions are not contiguous", format!("block #{i} {:?} at {} expected {}", b.text, b.position, at));
        }
        at = b.position + b.length + 1;
    }
    for (i, h) in blocks.iter().enumerate() {
        if h.block_number() != i || h.position() != sorted[i].position || h.id() != sorted[i].block_id || h.length() != sorted[i].length || h.text() != sorted[i].text {
            return viol(
                "views: block handle and snapshot disagree",
                format!("handle #{} @{}+{} {:?} id {}; snapshot #{} @{}+{} {:?} id {}", h.block_number(), h.position(), h.length(), h.text(), h.id(), i, sorted[i].position, sorted[i].length, sorted[i].text, sorted[i].block_id),
            );
        }
    }
    // 4. flow order is position order
    for p in w.blocks.windows(2) {
        if p[0].position >= p[1].position {
            return viol("views: flow order differs from position order", format!("{:?}@{} before {:?}@{}", p[0].text, p[0].position, p[1].text, p[1].position));
        }
    }
    // 5. plain text
    let joined = sorted.iter().map(|b| b.text.as_str()).collect::<Vec<_>>().join("\n");
    if joined != text {
        return viol("views: plain text differs from the blocks", format!("plain text {text:?}, blocks {joined:?}"));
    }
    // 6. counters
    let st = doc.stats();
    let chars: usize = w.blocks.iter().map(|b| b.length).sum();
    if st.character_count != chars {
        return viol("views: character count is wrong", format!("stats {} blocks {}", st.character_count, chars));
    }
    if st.block_count != w.blocks.len() {
        return viol("views: block count is wrong", format!("stats {} blocks {}", st.block_count, w.blocks.len()));
    }
    if st.table_count != w.tables {
        return viol("views: table count is wrong", format!("stats {} flow {}", st.table_count, w.tables));
    }
    if st.image_count != w.images {
        return viol("views: image count is wrong", format!("stats {} flow {}", st.image_count, w.images));
    }
    // 7. lookup by position
    let end = at.saturating_sub(1);
    for p in 0..=end.min(200) {
        // A position at the end of a non-empty block that has a successor is on
        // the separator, which belongs to the next block.
        let k = sorted.iter().position(|b| p >= b.position && p <= b.position + b.length).unwrap();
        let want = if sorted[k].length > 0 && p == sorted[k].position + sorted[k].length && k + 1 < sorted.len() { &sorted[k + 1] } else { &sorted[k] };
        match doc.block_at(p) {
            Ok(i) => {
                if i.block_id != want.block_id || i.start != want.position || i.length != want.length {
                    return viol("views: block lookup by position is wrong", format!("position {p}: {i:?}, expected id {} @{}+{}", want.block_id, want.position, want.length));
                }
            }
            Err(e) => return viol("views: block lookup by position fails", format!("position {p}: {e}")),
        }
        match doc.snapshot_block_at_position(p) {
            Some(s) => {
                if &s != *want && s != *sorted[k] {
                    return viol("views: block snapshot by position is wrong", format!("position {p}: {s:?}, expected {want:?}"));
                }
            }
            None => return viol("views: block snapshot by position is missing", format!("position {p}")),
        }
    }
    Ok(())
}
fn letters(s: &str) -> String {
    s.chars().filter(|c| c.is_alphabetic()).collect()
}
fn html_text(s: &str) -> String {
    let mut out = String::new();
    let mut tag = false;
    for c in s.chars() {
        match c {
            '<' => tag = true,
            '>' if tag => tag = false,
            c if !tag => out.push(c),
            _ => {}
        }
    }
    out.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&#39;", "'").replace("&nbsp;", " ").replace("&amp;", "&")
}
/// Literal matches, overlapping ones included, folded character by character.
pub fn matches(text: &[char], q: &[char], case: bool) -> Vec<(usize, usize)> {
    let same = |a: char, b: char| a == b || (!case && a.to_lowercase().eq(b.to_lowercase()));
    if q.is_empty() || text.len() < q.len() {
        return vec![];
    }
    (0..=text.len() - q.len()).filter(|&i| q.iter().zip(&text[i..]).all(|(a, b)| same(*a, *b))).map(|i| (i, q.len())).collect()
}
/// Without those that overlap an earlier one.
pub fn apart(mut v: Vec<(usize, usize)>) -> Vec<(usize, usize)> {
    let mut end = 0;
    v.retain(|m| {
        let free = m.0 >= end;
        end = if free { m.0 + m.1 } else { end };
        free
    });
    v
}
/// Search, per-position queries and exports tell the same as the blocks. Not every position is
/// asked each time: `salt` chooses some. The document has no highlighter.
pub fn queries(doc: &TextDocument, salt: u64) -> Check {
    let text = doc.to_plain_text().unwrap_or_default();
    let mut r = Rng::new(crate::rng::mix(salt, crate::rng::hash_str(&text)));
    let chars: Vec<char> = text.chars().collect();
    let n = chars.len();
    let w = walk(doc);
    if doc.character_count() != w.blocks.iter().map(|b| b.length).sum::<usize>() || doc.block_count() != w.blocks.len() || doc.is_empty() != (doc.character_count() == 0) {
        return viol("views: character_count, block_count or is_empty is wrong", format!("{} {} {}", doc.character_count(), doc.block_count(), doc.is_empty()));
    }
    let text_of = |a: usize, b: usize| chars[a.min(n)..b.min(n)].iter().collect::<String>();
    // text by position
    for _ in 0..3 {
        let (p, l) = (r.below(n + 1), r.below(n + 2));
        match doc.text_at(p, l) {
            Ok(t) if t == text_of(p, p + l) => {}
            o => return viol("views: text_at disagrees with the plain text", format!("{p}+{l}: {o:?}, plain text {text:?}")),
        }
    }
    // search
    for _ in 0..2 {
        let l = r.range(1, 3);
        let p = r.below(n + 1);
        let q = text_of(p, p + l);
        if q.is_empty() || q.contains('\u{130}') {
            continue;
        }
        let qc: Vec<char> = q.chars().collect();
        let case = r.chance(1, 2);
        let q = if case { q } else { qc.iter().map(|c| if c.is_ascii() { c.to_ascii_uppercase() } else { *c }).collect() };
        let every = matches(&chars, &q.chars().collect::<Vec<_>>(), case);
        let want = apart(every.clone());
        let mut o = FindOptions { case_sensitive: case, whole_word: false, use_regex: false, search_backward: false };
        let all: Vec<(usize, usize)> = doc.find_all(&q, &o).map(|v| v.iter().map(|m| (m.position, m.length)).collect()).unwrap_or_default();
        if all != want {
            return viol("views: find_all disagrees with the plain text", format!("{q:?} in {text:?}: {all:?} instead of {want:?}"));
        }
        let from = r.below(n + 2);
        for back in [false, true] {
            o.search_backward = back;
            let f = doc.find(&q, from, &o).ok().flatten().map(|m| (m.position, m.length));
            let e = if back { want.iter().rev().find(|m| m.0 < from) } else { want.iter().find(|m| m.0 >= from) };
            if f.as_ref() != e {
                return viol("views: find disagrees with find_all", format!("{q:?} from {from} backward {back} in {text:?}: {f:?} instead of {e:?}"));
            }
        }
        // whole words, where there is no doubt what a word is
        let o = FindOptions { case_sensitive: case, whole_word: true, use_regex: false, search_backward: false };
        let words: Vec<(usize, usize)> = doc.find_all(&q, &o).map(|v| v.iter().map(|m| (m.position, m.length)).collect()).unwrap_or_default();
        for m in &every {
            let at = |i: usize| chars.get(i).copied().unwrap_or('\n');
            let (first, last) = (at(m.0), at(m.0 + m.1 - 1));
            let (before, after) = (if m.0 == 0 { '\n' } else { at(m.0 - 1) }, at(m.0 + m.1));
            let letter = |c: char| c.is_ascii_alphabetic();
            let gap = |c: char| c == ' ' || c == '\n';
            let got = words.contains(m);
            if letter(first) && letter(last) && (letter(before) || letter(after)) && got {
                return viol("views: whole word search finds part of a word", format!("{q:?} at {m:?} in {text:?}"));
            }
            if q.chars().all(letter) && gap(before) && gap(after) && !got {
                return viol("views: whole word search misses a word", format!("{q:?} at {m:?} in {text:?}: {words:?}"));
            }
        }
        if words.iter().any(|m| !every.contains(m)) {
            return viol("views: whole word search finds something else", format!("{q:?} in {text:?}: {words:?} not in {every:?}"));
        }
        // the same as a regular expression, which does not overlap
        let rx: String = q.chars().map(|c| if c.is_alphanumeric() { c.to_string() } else { format!("\\x{{{:x}}}", c as u32) }).collect();
        let o = FindOptions { case_sensitive: true, whole_word: false, use_regex: true, search_backward: false };
        let seq = apart(matches(&chars, &q.chars().collect::<Vec<_>>(), true));
        let got: Vec<(usize, usize)> = doc.find_all(&rx, &o).map(|v| v.iter().map(|m| (m.position, m.length)).collect()).unwrap_or_default();
        if got != seq {
            return viol("views: regex search disagrees with the plain text", format!("{rx:?} in {text:?}: {got:?} instead of {seq:?}"));
        }
    }
    // queries by position
    let mut sorted: Vec<&BlockSnapshot> = w.blocks.iter().collect();
    sorted.sort_by_key(|b| b.position);
    for _ in 0..3 {
        let p = r.below(n + 1);
        let Some(k) = sorted.iter().position(|b| p <= b.position + b.length) else { continue };
        let i = if sorted[k].length > 0 && p == sorted[k].position + sorted[k].length && k + 1 < sorted.len() { k + 1 } else { k };
        let b = sorted[i];
        let bad = |what: &str, d: String| -> Check { viol(format!("views: {what} by position is wrong"), format!("position {p} in {text:?}: {d}")) };
        match doc.block_at_position(p) {
            Some(h) if h.id() == b.block_id => {
                if h.snapshot() != *b || h.fragments() != b.fragments || h.block_format() != b.block_format {
                    return bad("block handle", format!("{:?}, flow has {b:?}", h.snapshot()));
                }
                let list = h.list().map(|l| l.id());
                let index = h.list_item_index();
                if list != b.list_info.as_ref().map(|l| l.list_id) || index != b.list_info.as_ref().map(|l| l.item_index) {
                    return bad("list membership", format!("{list:?} {index:?}, snapshot {:?}", b.list_info));
                }
                if h.next().map(|x| x.id()) != sorted.get(i + 1).map(|x| x.block_id) || h.previous().map(|x| x.id()) != i.checked_sub(1).map(|x| sorted[x].block_id) {
                    return bad("next or previous block", format!("block {i}"));
                }
                if h.is_empty() != (b.length == 0) || !h.is_valid() {
                    return bad("is_empty or is_valid", format!("{b:?}"));
                }
                for off in [p.saturating_sub(b.position), r.below(b.length + 2)] {
                    let e = b.fragments.iter().find_map(|f| match f {
                        FragmentContent::Text { format, offset, length, .. } if off >= *offset && off < offset + length => Some(format.clone()),
                        _ => None,
                    });
                    let f = h.char_format_at(off);
                    if f != e {
                        return bad("char_format_at", format!("offset {off}: {f:?} instead of {e:?}"));
                    }
                }
            }
            o => return bad("block_at_position", format!("{:?}", o.map(|h| h.id()))),
        }
        if doc.block_by_number(i).map(|h| h.id()) != Some(b.block_id) || doc.block_by_number(sorted.len()).is_some() {
            return bad("block_by_number", format!("{i}"));
        }
        if doc.block_by_id(b.block_id).map(|h| h.text()) != Some(b.text.clone()) {
            return bad("block_by_id", format!("{b:?}"));
        }
        match doc.block_format_at(p) {
            Ok(f) if f == b.block_format => {}
            o => return bad("block_format_at", format!("{o:?} instead of {:?}", b.block_format)),
        }
        let l = r.below(n + 2);
        let got: Vec<usize> = doc.blocks_in_range(p, l).iter().map(|h| h.id()).collect();
        let want: Vec<usize> = sorted
            .iter()
            .filter(|x| if l == 0 { p >= x.position && p < x.position + x.length } else { x.position < p + l && x.position + x.length > p })
            .map(|x| x.block_id)
            .collect();
        if got != want {
            return bad("blocks_in_range", format!("+{l}: {got:?} instead of {want:?}"));
        }
        let inside = p.checked_sub(b.position);
        let want = inside.and_then(|o| {
            let pieces = b.fragments.iter().filter_map(|f| match f {
                FragmentContent::Text { offset, length, element_id, .. } => Some((*offset, *length, *element_id)),
                _ => None,
            });
            pieces.clone().find(|f| o >= f.0 && o < f.0 + f.1).or(pieces.clone().filter(|f| o == f.0 + f.1).next_back()).map(|f| (f.2, b.position + f.0, o - f.0))
        });
        let got = doc.find_element_at_position(p);
        if got != want {
            return bad("find_element_at_position", format!("{got:?} instead of {want:?}"));
        }
        // a cursor there
        let c = doc.cursor_at(p);
        if c.position() != p {
            continue; // inside a grapheme cluster
        }
        let got = (c.at_block_start(), c.at_block_end(), c.block_number(), c.position_in_block(), c.at_start(), c.at_end());
        let want = (p == b.position, p == b.position + b.length, i, p.saturating_sub(b.position), p == 0, p >= n);
        if got != want {
            return bad("cursor state", format!("{got:?} instead of {want:?}"));
        }
        match c.block_format() {
            Ok(f) if f == b.block_format => {}
            o => return bad("cursor block format", format!("{o:?}")),
        }
        let off = p.saturating_sub(b.position);
        let f = b.fragments.iter().find_map(|f| match f {
            FragmentContent::Text { format, offset, length, .. } if off >= *offset && off < offset + length => Some(format.clone()),
            _ => None,
        });
        match c.char_format() {
            Ok(x) if x == f.clone().unwrap_or_default() => {}
            o => return bad("cursor char format", format!("{o:?} instead of {f:?}")),
        }
        let list = c.current_list().map(|l| l.id());
        if list != b.list_info.as_ref().map(|l| l.list_id) {
            return bad("current list", format!("{list:?}"));
        }
        c.set_position(r.below(n + 1), MoveMode::KeepAnchor);
        let (a, z) = (c.selection_start(), c.selection_end());
        match c.selected_text() {
            Ok(t) if t == text_of(a, z) => {}
            o => return bad("selected text", format!("{a}..{z}: {o:?}")),
        }
    }
    // lists
    for b in &sorted {
        if let Some(l) = doc.block_by_id(b.block_id).and_then(|h| h.list()) {
            let items: Vec<usize> = (0..l.count() + 1).filter_map(|i| l.item(i)).map(|x| x.id()).collect();
            let want: Vec<usize> = sorted.iter().filter(|x| x.list_info.as_ref().map(|i| i.list_id) == Some(l.id())).map(|x| x.block_id).collect();
            if items != want || l.count() != want.len() {
                return viol("views: list items disagree with the blocks", format!("{items:?} instead of {want:?}"));
            }
            let i = b.list_info.as_ref().unwrap();
            if l.item_marker(i.item_index) != i.marker || l.style() != i.style {
                return viol("views: list marker or style disagrees with the blocks", format!("{:?} {:?} {i:?}", l.item_marker(i.item_index), l.style()));
            }
        }
    }
    // words
    let words: usize = w.blocks.iter().map(|b| b.text.split_whitespace().count()).sum();
    if doc.stats().word_count != words {
        return viol("views: word count is wrong", format!("{} instead of {words}: {text:?}", doc.stats().word_count));
    }
    Ok(())
}
/// The exports contain the text, and the whole text.
pub fn exports(doc: &TextDocument) -> Check {
    let text = letters(&doc.to_plain_text().unwrap_or_default());
    match doc.to_html() {
        Ok(h) if letters(&html_text(&h)) == text => {}
        o => return viol("views: the HTML export has another text", format!("{o:?} for {text:?}")),
    }
    match doc.to_markdown() {
        Ok(h) if letters(&h) == text => {}
        o => return viol("views: the markdown export has another text", format!("{o:?} for {text:?}")),
    }
    match doc.to_latex("article", false) {
        Ok(h) if letters(&super::tables::plain(&h)) == text => {}
        o => return viol("views: the LaTeX export has another text", format!("{o:?} for {text:?}")),
    }
    Ok(())
}
pub fn mix_for(r: &mut Rng) -> Mix {
    let mut m = Mix { moves: 8, text: 8, ..Default::default() };
    let mut on = |w: &mut u32, v: u32, n: usize| {
        if r.chance(1, n) {
            *w = v
        }
    };
    on(&mut m.rich, 2, 3);
    on(&mut m.format, 2, 2);
    on(&mut m.history, 3, 2);
    on(&mut m.list, 2, 3);
    on(&mut m.replace, 1, 4);
    on(&mut m.clip, 2, 4);
    on(&mut m.doc, 1, 6);
    m
}
pub fn generate(r: &mut Rng, p: &mut Plan) {
    let m = mix_for(r);
    p.setup = gen_ops::origin(r, 4);
    let n = r.range(2, 14);
    p.threads = vec![gen_ops::steps(r, &m, 2, n)];
}
pub fn run(plan: &'static Plan) -> Check {
    let doc = TextDocument::new();
    let mut c = Client::new(doc.clone(), 2);
    for s in plan.setup.iter().chain(&plan.threads[0]) {
        let o = c.exec(&s.op);
        log(|| format!("{} -> {:?}", serde_json::to_string(s).unwrap(), o));
        if let Err(mut v) = views(&doc) {
            let n = format!("{:?}", s.op);
            v.class += &format!(" after {}", n.split([' ', '{']).next().unwrap());
            return Err(v);
        }
        queries(&doc, plan.seed)?;
    }
    exports(&doc)
}
