//! Canonical rendering of everything a user can observe of a document.
//! Entity ids are replaced by their order of first appearance.
use std::collections::HashMap;
use text_document::*;

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Dump {
    pub sections: Vec<(&'static str, Vec<String>)>,
}
impl Dump {
    pub fn hash(&self) -> u64 {
        let mut h = 0;
        for (n, l) in &self.sections {
            h = crate::rng::mix(h, crate::rng::hash_str(n));
            for x in l {
                h = crate::rng::mix(h, crate::rng::hash_str(x));
            }
        }
        h
    }
    pub fn get(&self, n: &str) -> &[String] {
        self.sections.iter().find(|s| s.0 == n).map(|s| &s.1[..]).unwrap_or(&[])
    }
    pub fn without(mut self, names: &[&str]) -> Dump {
        self.sections.retain(|s| !names.contains(&s.0));
        self
    }
    /// First difference: (section, description).
    pub fn diff(&self, other: &Dump) -> Option<(String, String)> {
        for (a, b) in self.sections.iter().zip(other.sections.iter()) {
            if a != b {
                let n = a.1.len().max(b.1.len());
                for i in 0..n {
                    let x = a.1.get(i).map(|s| s.as_str()).unwrap_or("<nothing>");
                    let y = b.1.get(i).map(|s| s.as_str()).unwrap_or("<nothing>");
                    if x != y {
                        return Some((a.0.to_string(), format!("{}[{}]: expected {:?} got {:?}", a.0, i, x, y)));
                    }
                }
            }
        }
        None
    }
}

pub fn short(s: String) -> String {
    // Drop the "field: None" noise of Debug output.
    let mut out = String::with_capacity(s.len());
    let mut rest = &s[..];
    while let Some(p) = rest.find(": None") {
        let (h, t) = rest.split_at(p);
        let start = h.rfind(|c: char| !(c.is_alphanumeric() || c == '_')).map(|i| i + 1).unwrap_or(0);
        out.push_str(&h[..start]);
        let mut t = &t[6..];
        if let Some(x) = t.strip_prefix(", ") {
            t = x;
        }
        rest = t;
    }
    out.push_str(rest);
    out.replace(", }", " }").replace("{ }", "{}").replace("anchor_names: [] ", "").replace("tab_positions: [] ", "")
}

#[derive(Default)]
pub struct Ids(HashMap<(u8, usize), usize>, bool);
impl Ids {
    fn get(&mut self, kind: u8, id: usize) -> usize {
        if self.1 {
            return id;
        }
        let n = self.0.len();
        *self.0.entry((kind, id)).or_insert(n)
    }
}
pub fn frag(f: &FragmentContent, ids: bool) -> String {
    match f {
        FragmentContent::Text { text, format, offset, length, element_id, word_starts } => format!(
            "T@{offset}+{length} {text:?} {} ws={word_starts:?}{}",
            short(format!("{format:?}")),
            if ids { format!(" e={element_id:x}") } else { String::new() }
        ),
        FragmentContent::Image { name, width, height, quality, format, offset, element_id } => format!(
            "I@{offset} {name:?} {width}x{height} q{quality} {}{}",
            short(format!("{format:?}")),
            if ids { format!(" e={element_id:x}") } else { String::new() }
        ),
    }
}
fn block(b: &BlockSnapshot, ind: usize, ids: &mut Ids, out: &mut Vec<String>) {
    let pad = "  ".repeat(ind);
    let mut s = format!("{pad}block {} @{}+{} {:?} {}", ids.get(0, b.block_id), b.position, b.length, b.text, short(format!("{:?}", b.block_format)));
    if let Some(l) = &b.list_info {
        s += &format!(" list {} {:?} ind{} {:?} #{}", ids.get(1, l.list_id), l.style, l.indent, l.marker, l.item_index);
    }
    if let Some(f) = b.parent_frame_id {
        s += &format!(" in frame {}", ids.get(2, f));
    }
    if let Some(c) = &b.table_cell {
        s += &format!(" cell {}:{},{}", ids.get(3, c.table_id), c.row, c.column);
    }
    out.push(s);
    for f in &b.fragments {
        out.push(format!("{pad}  {}", frag(f, ids.1)));
    }
}
pub fn flow(e: &[FlowElementSnapshot], ind: usize, ids: &mut Ids, out: &mut Vec<String>) {
    let pad = "  ".repeat(ind);
    for x in e {
        match x {
            FlowElementSnapshot::Block(b) => block(b, ind, ids, out),
            FlowElementSnapshot::Table(t) => {
                out.push(format!("{pad}table {} {}x{} w={:?} {}", ids.get(3, t.table_id), t.rows, t.columns, t.column_widths, short(format!("{:?}", t.format))));
                for c in &t.cells {
                    out.push(format!("{pad} cell {},{} span {}x{} {}", c.row, c.column, c.row_span, c.column_span, short(format!("{:?}", c.format))));
                    for b in &c.blocks {
                        block(b, ind + 1, ids, out)
                    }
                }
            }
            FlowElementSnapshot::Frame(f) => {
                out.push(format!("{pad}frame {} {}", ids.get(2, f.frame_id), short(format!("{:?}", f.format))));
                flow(&f.elements, ind + 1, ids, out);
            }
        }
    }
}
pub fn flow_lines(doc: &TextDocument, raw_ids: bool) -> Vec<String> {
    let mut ids = Ids(HashMap::new(), raw_ids);
    let mut v = vec![];
    flow(&doc.snapshot_flow().elements, 0, &mut ids, &mut v);
    v
}
fn res(r: Result<String>) -> Vec<String> {
    match r {
        Ok(s) => s.lines().map(|l| l.to_string()).collect(),
        Err(e) => vec![format!("ERROR {e}")],
    }
}
/// Everything observable about the document's content (not history flags).
pub fn content(doc: &TextDocument, resources: &[String]) -> Dump {
    content_ids(doc, resources, false)
}
pub fn content_ids(doc: &TextDocument, resources: &[String], raw_ids: bool) -> Dump {
    let mut s: Vec<(&'static str, Vec<String>)> = vec![];
    s.push(("text", vec![doc.to_plain_text().unwrap_or_else(|e| format!("ERROR {e}"))]));
    s.push(("flow", flow_lines(doc, raw_ids)));
    s.push(("blocks", doc.blocks().iter().map(|b| format!("@{}+{} #{} {:?}", b.position(), b.length(), b.block_number(), b.text())).collect()));
    s.push(("stats", vec![format!("{:?}", doc.stats())]));
    s.push(("counts", vec![format!("{} {} {}", doc.character_count(), doc.block_count(), doc.is_empty())]));
    s.push(("html", res(doc.to_html())));
    s.push(("markdown", res(doc.to_markdown())));
    s.push(("latex", res(doc.to_latex("article", true))));
    s.push(("meta", vec![doc.title(), format!("{:?}", doc.text_direction()), format!("{:?}", doc.default_wrap_mode())]));
    s.push(("resources", resources.iter().map(|n| format!("{n}: {:?}", doc.resource(n).ok().flatten())).collect()));
    Dump { sections: s }
}
pub fn flags(doc: &TextDocument) -> String {
    format!("can_undo={} can_redo={}", doc.can_undo(), doc.can_redo())
}
pub fn event(e: &DocumentEvent) -> String {
    let s = format!("{e:?}");
    // operation ids are random: keep only their presence
    if let Some(p) = s.find("operation_id: \"") {
        let t = &s[p + 15..];
        if let Some(q) = t.find('"') {
            return format!("{}operation_id: \"*\"{}", &s[..p], &t[q + 1..]);
        }
    }
    s
}
pub fn events(v: &[DocumentEvent]) -> String {
    v.iter().map(event).collect::<Vec<_>>().join(" | ")
}
pub fn first_diff(a: &[String], b: &[String]) -> Option<(String, String)> {
    (0..a.len().max(b.len())).find(|&i| a.get(i) != b.get(i)).map(|i| (a.get(i).cloned().unwrap_or_default(), b.get(i).cloned().unwrap_or_default()))
}
