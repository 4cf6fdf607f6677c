//! Tables keep their grid and their contents.
use crate::dump::{self, Dump};
use crate::exec::Client;
use crate::gen_ops;
use crate::plan::{Op, Plan, Step};
use crate::rng::Rng;
use crate::run::{Check, count, log, viol};
use text_document::*;

pub fn generate(r: &mut Rng, p: &mut Plan) {
    p.setup = match r.below(6) {
        0 => {
            let cell = |r: &mut Rng| gen_ops::line(r, 2).replace('|', " ");
            let mut t = gen_ops::line(r, 3);
            for _ in 0..r.range(1, 2) {
                let (rows, cols) = (r.range(1, 3), r.range(1, 3));
                t += "\n\n";
                for i in 0..rows {
                    t += &format!("|{}\n", (0..cols).map(|_| format!(" x{} |", cell(r))).collect::<String>());
                    if i == 0 {
                        t += &format!("|{}\n", "---|".repeat(cols));
                    }
                }
                t += &format!("\n{}", gen_ops::line(r, 3));
            }
            vec![Op::StartMarkdown { text: t }.into(), Op::OpWait { o: 0 }.into()]
        }
        1 => {
            let mut t = format!("<p>{}</p>", gen_ops::line(r, 3));
            for _ in 0..r.range(1, 2) {
                let (rows, cols) = (r.range(1, 3), r.range(1, 3));
                t += "<table>";
                for _ in 0..rows {
                    t += &format!("<tr>{}</tr>", (0..cols).map(|_| format!("<td>{}</td>", gen_ops::line(r, 2))).collect::<String>());
                }
                t += &format!("</table><p>{}</p>", gen_ops::line(r, 3));
            }
            vec![Op::StartHtml { text: t }.into(), Op::OpWait { o: 0 }.into()]
        }
        _ => vec![
            Op::SetPlainText { text: if r.chance(1, 3) { "x".into() } else { gen_ops::para(r, 3) } }.into(),
            Op::SetFrac { c: 0, frac: r.below(65536) as u32, keep: false }.into(),
            Op::InsertTable { c: 0, rows: r.range(1, 4), cols: r.range(1, 4) }.into(),
        ],
    };
    let mut v: Vec<Step> = vec![];
    // Further tables put in, and some taken away.
    let again = r.chance(1, 2);
    let n = r.range(2, 14);
    let redo = r.chance(1, 2);
    let nsplit = if redo { 0 } else { 1 };
    for _ in 0..n {
        let (row, col) = (r.below(4), r.below(4));
        let table = r.below(2);
        let into = Op::IntoCell { c: 0, table, row, col };
        v.push(Op::Sleep { ms: 3000 }.into());
        if again && r.chance(1, 3) {
            if r.chance(3, 4) {
                v.push(Op::SetFrac { c: 0, frac: r.below(65536) as u32, keep: false }.into());
                v.push(Op::InsertTable { c: 0, rows: r.range(1, 3), cols: r.range(1, 3) }.into());
            } else {
                v.push(into.into());
                v.push(Op::RemoveTable { c: 0 }.into());
            }
            continue;
        }
        match r.below(24) {
            0..=3 => {
                v.push(into.into());
                v.push(Op::InsertText { c: 0, text: gen_ops::line(r, 6) }.into());
            }
            4 | 5 => {
                v.push(Op::SetFrac { c: 1, frac: r.below(65536) as u32, keep: false }.into());
                let text = gen_ops::line(r, 6);
                let fmt = gen_ops::fmt(r);
                v.push(
                    match r.below(8) {
                        0 => Op::InsertText { c: 1, text },
                        6 => Op::InsertList { c: 1, style: r.below(3) as u8 },
                        1 => Op::InsertFormatted { c: 1, text, fmt },
                        2 => Op::DeleteChar { c: 1 },
                        3 => Op::DeletePrev { c: 1 },
                        4 => Op::InsertBlock { c: 1 },
                        5 => Op::InsertPlainFragment { c: 1, text },
                        _ => Op::SetBlockFormat { c: 1, heading: None, align: Some(r.below(4) as u8), indent: Some(r.below(3) as u8) },
                    }
                    .into(),
                );
            }
            19 => {
                v.push(Op::SetFrac { c: 1, frac: r.below(65536) as u32, keep: false }.into());
                v.push(Op::SetFrac { c: 1, frac: r.below(65536) as u32, keep: true }.into());
                let text = gen_ops::line(r, 6);
                v.push(
                    match r.below(6) {
                        0 => Op::InsertText { c: 1, text },
                        1 => Op::InsertFormatted { c: 1, text, fmt: gen_ops::fmt(r) },
                        2 => Op::InsertBlock { c: 1 },
                        _ => Op::RemoveSelected { c: 1 },
                    }
                    .into(),
                );
            }
            20 => {
                v.push(Op::SetFrac { c: 1, frac: r.below(65536) as u32, keep: false }.into());
                v.push(Op::SetFrac { c: 1, frac: r.below(65536) as u32, keep: true }.into());
                let fmt = gen_ops::fmt(r);
                v.push(
                    match r.below(5) {
                        0 => Op::SetCharFormat { c: 1, fmt },
                        1 => Op::MergeCharFormat { c: 1, fmt },
                        2 => Op::CreateList { c: 1, style: r.below(3) as u8 },
                        3 => Op::RemoveFromList { c: 1 },
                        _ => Op::SetBlockFormat { c: 1, heading: None, align: Some(r.below(4) as u8), indent: Some(r.below(3) as u8) },
                    }
                    .into(),
                );
            }
            21 => {
                let (query, with) = (r.pick(&["x", "foo", "a", "aa"]).to_string(), gen_ops::line(r, 2));
                v.push(Op::Replace { query, with, all: true, case: true, regex: false }.into());
            }
            6 | 7 => v.push(Op::TableRow { c: 0, table, at: r.below(6), insert: true }.into()),
            8 | 9 => v.push(Op::TableCol { c: 0, table, at: r.below(6), insert: true }.into()),
            10 => v.push(Op::TableRow { c: 0, table, at: r.below(5), insert: false }.into()),
            11 => v.push(Op::TableCol { c: 0, table, at: r.below(5), insert: false }.into()),
            12 | 13 => {
                let (r0, c0) = (r.below(4), r.below(4));
                v.push(Op::MergeCells { c: 0, table, r0, c0, r1: r0 + r.below(3), c1: c0 + r.below(3) }.into())
            }
            14 if nsplit > 0 => {
                v.push(into.into());
                v.push(Op::SplitCell { c: 0, rows: r.range(1, 3), cols: r.range(1, 3) }.into());
            }
            15 => {
                v.push(into.into());
                v.push(r.pick(&[Op::RowAbove { c: 0 }, Op::RowBelow { c: 0 }, Op::ColBefore { c: 0 }, Op::ColAfter { c: 0 }, Op::RemoveRow { c: 0 }, Op::RemoveCol { c: 0 }]).clone().into());
            }
            16 => {
                v.push(into.into());
                v.push(Op::SetCellFormat { c: 0, padding: r.below(5) as i32, color: r.pick(&["red", "blue"]).to_string() }.into());
            }
            17 => {
                v.push(into.into());
                v.push(Op::SetTableFormat { c: 0, border: r.below(5) as i32, align: r.below(4) as u8 }.into());
            }
            18 if redo => v.push(Op::Redo.into()),
            _ => v.push(Op::Undo.into()),
        }
    }
    if r.chance(1, 2) {
        for s in &mut v {
            let move_only = matches!(s.op, Op::SetFrac { .. } | Op::IntoCell { .. } | Op::Sleep { .. });
            if !move_only && r.chance(1, 4) {
                let far = *r.pick(&[2, 5, 12, 30]);
                s.fail_at = r.range(1, far) as u32;
            }
        }
    }
    p.threads = vec![v];
}

#[derive(Clone, PartialEq, Debug)]
struct Cell {
    row: usize,
    col: usize,
    rs: usize,
    cs: usize,
    text: String,
    format: String,
}
#[derive(Clone, PartialEq, Debug, Default)]
struct Grid {
    rows: usize,
    cols: usize,
    cells: Vec<Cell>,
}
fn grid(t: &TableSnapshot) -> Grid {
    let mut cells: Vec<Cell> = t
        .cells
        .iter()
        .map(|c| Cell { row: c.row, col: c.column, rs: c.row_span, cs: c.column_span, text: c.blocks.iter().map(|b| &b.text[..]).collect::<Vec<_>>().join("\n"), format: dump::short(format!("{:?}", c.format)) })
        .collect();
    cells.sort_by_key(|c| (c.row, c.col));
    Grid { rows: t.rows, cols: t.columns, cells }
}
impl Grid {
    /// What is wrong with the grid itself: every slot belongs to exactly one cell.
    fn flaw(&self) -> Option<String> {
        let mut n = vec![vec![0; self.cols]; self.rows];
        for c in &self.cells {
            for r in c.row..c.row + c.rs {
                for k in c.col..c.col + c.cs {
                    match n.get_mut(r).and_then(|x| x.get_mut(k)) {
                        Some(x) => *x += 1,
                        None => return Some(format!("cell {},{} span {}x{} reaches out of {}x{}", c.row, c.col, c.rs, c.cs, self.rows, self.cols)),
                    }
                }
            }
        }
        for (r, x) in n.iter().enumerate() {
            if let Some(k) = x.iter().position(|n| *n != 1) {
                return Some(format!("slot {r},{k} belongs to {} cells", x[k]));
            }
        }
        None
    }
    fn turn(&self) -> Grid {
        let mut cells: Vec<Cell> = self.cells.iter().map(|c| Cell { row: c.col, col: c.row, rs: c.cs, cs: c.rs, ..c.clone() }).collect();
        cells.sort_by_key(|c| (c.row, c.col));
        Grid { rows: self.cols, cols: self.rows, cells }
    }
    fn insert_row(&self, at: usize, empty: &str) -> Option<Grid> {
        if at > self.rows {
            return None;
        }
        let mut g = self.clone();
        g.rows += 1;
        let mut covered = vec![false; g.cols];
        for c in &mut g.cells {
            if c.row >= at {
                c.row += 1;
            } else if c.row + c.rs > at {
                c.rs += 1;
                covered[c.col..c.col + c.cs].fill(true);
            }
        }
        for (col, _) in covered.iter().enumerate().filter(|x| !x.1) {
            g.cells.push(Cell { row: at, col, rs: 1, cs: 1, text: String::new(), format: empty.into() });
        }
        g.cells.sort_by_key(|c| (c.row, c.col));
        Some(g)
    }
    fn remove_row(&self, at: usize) -> Option<Grid> {
        if at >= self.rows || self.rows == 1 {
            return None;
        }
        let mut g = self.clone();
        g.rows -= 1;
        g.cells.retain(|c| c.row != at || c.rs > 1);
        for c in &mut g.cells {
            if c.row > at {
                c.row -= 1;
            } else if c.row + c.rs > at {
                c.rs -= 1;
            }
        }
        g.cells.sort_by_key(|c| (c.row, c.col));
        Some(g)
    }
    fn merge(&self, r0: usize, c0: usize, r1: usize, c1: usize) -> Option<Grid> {
        if r0 > r1 || c0 > c1 || r1 >= self.rows || c1 >= self.cols {
            return None;
        }
        let hit = |c: &Cell| c.row <= r1 && c.row + c.rs > r0 && c.col <= c1 && c.col + c.cs > c0;
        if self.cells.iter().any(|c| hit(c) && (c.rs > 1 || c.cs > 1)) {
            return None;
        }
        let mut g = self.clone();
        g.cells.retain(|c| !hit(c) || (c.row, c.col) == (r0, c0));
        let c = g.cells.iter_mut().find(|c| (c.row, c.col) == (r0, c0))?;
        (c.rs, c.cs) = (r1 - r0 + 1, c1 - c0 + 1);
        Some(g)
    }
    fn split(&self, row: usize, col: usize, rows: usize, cols: usize, empty: &str) -> Option<Grid> {
        let i = self.cells.iter().position(|c| (c.row, c.col) == (row, col))?;
        let old = self.cells[i].clone();
        if old.rs < rows || old.cs < cols || rows == 0 || cols == 0 || (old.rs == 1 && old.cs == 1) {
            return None;
        }
        let part = |n: usize, k: usize| -> Vec<(usize, usize)> {
            let mut at = 0;
            (0..k).map(|i| { let l = n / k + (i < n % k) as usize; at += l; (at - l, l) }).collect()
        };
        let mut g = self.clone();
        for (j, (dr, rs)) in part(old.rs, rows).into_iter().enumerate() {
            for (k, (dc, cs)) in part(old.cs, cols).into_iter().enumerate() {
                if (j, k) == (0, 0) {
                    (g.cells[i].rs, g.cells[i].cs) = (rs, cs);
                } else {
                    g.cells.push(Cell { row: row + dr, col: col + dc, rs, cs, text: String::new(), format: empty.into() });
                }
            }
        }
        g.cells.sort_by_key(|c| (c.row, c.col));
        Some(g)
    }
}
struct State {
    tables: Vec<(usize, Grid)>,
    /// The paragraphs outside of the tables.
    paras: Vec<String>,
}
fn state(doc: &TextDocument) -> State {
    let mut s = State { tables: vec![], paras: vec![] };
    for e in &doc.snapshot_flow().elements {
        match e {
            FlowElementSnapshot::Block(b) => s.paras.push(b.text.clone()),
            FlowElementSnapshot::Table(t) => s.tables.push((t.table_id, grid(t))),
            _ => {}
        }
    }
    s
}
/// What an HTML page shows: the text outside of tables, and rows of cells.
fn page(html: &str) -> Vec<String> {
    let (mut out, mut text, mut depth) = (vec![], String::new(), 0);
    let body = html.split_once("<body>").map_or(html, |x| x.1);
    for t in body.split('<').skip_while(|t| t.is_empty()) {
        let (tag, rest) = t.split_once('>').unwrap_or(("", t));
        let name = tag.split(' ').next().unwrap();
        match name {
            "table" | "tr" | "td" | "/table" | "/tr" | "/td" => {
                if depth == 0 && !text.is_empty() || name == "/td" {
                    out.push(format!("{text:?}"));
                }
                text.clear();
                let span = |k: &str| tag.split_once(&format!("{k}=\"")).map_or("1".into(), |x| x.1.split('"').next().unwrap().to_string());
                match name {
                    "td" => out.push(format!("td {}x{}", span("rowspan"), span("colspan"))),
                    _ => out.push(name.to_string()),
                }
                depth += match name { "table" => 1, "/table" => -1, _ => 0 };
            }
            "br/" => text.push('\n'),
            _ => {}
        }
        text += &rest.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&#x27;", "'").replace("&#13;", "\r").replace("&amp;", "&");
    }
    if !text.is_empty() {
        out.push(format!("{text:?}"));
    }
    out.retain(|x| x != "/td" && x != "/tr");
    out
}
/// The same of the document.
fn pages(doc: &TextDocument) -> Vec<String> {
    let (mut out, mut text) = (vec![], String::new());
    for e in &doc.snapshot_flow().elements {
        match e {
            FlowElementSnapshot::Block(b) => text += &b.text,
            FlowElementSnapshot::Table(t) => {
                if !text.is_empty() {
                    out.push(format!("{:?}", std::mem::take(&mut text)));
                }
                out.push("table".into());
                let g = grid(t);
                for r in 0..g.rows {
                    out.push("tr".into());
                    for c in g.cells.iter().filter(|c| c.row == r) {
                        out.push(format!("td {}x{}", c.rs, c.cs));
                        out.push(format!("{:?}", c.text.split('\n').filter(|l| !l.is_empty()).collect::<Vec<_>>().join("\n")));
                    }
                }
                out.push("/table".into());
            }
            _ => {}
        }
    }
    if !text.is_empty() {
        out.push(format!("{text:?}"));
    }
    out
}
fn letters(s: &str) -> String {
    s.chars().filter(|c| c.is_alphanumeric()).collect()
}
/// The letters of a LaTeX text without its commands.
pub fn plain(tex: &str) -> String {
    let mut text = String::new();
    for (i, w) in tex.split('\\').enumerate() {
        let w = match i {
            0 => w,
            _ if w.starts_with("begin{") || w.starts_with("end{") => w.split_once('}').map_or("", |x| x.1),
            _ => w.trim_start_matches(|c: char| c.is_ascii_alphabetic()),
        };
        text += &letters(w);
    }
    text
}
/// The tables and the paragraphs between them in the other exports, without formats.
fn exported(doc: &TextDocument) -> Check {
    let (mut grids, mut between) = (vec![], vec![String::new()]);
    for e in &doc.snapshot_flow().elements {
        match e {
            FlowElementSnapshot::Block(b) => *between.last_mut().unwrap() += &letters(&b.text),
            FlowElementSnapshot::Table(t) => {
                between.push(String::new());
                let g = grid(t);
                for r in 0..g.rows {
                    let text = |c| g.cells.iter().find(|x| (x.row, x.col) == (r, c)).map_or(String::new(), |x| letters(&x.text));
                    grids.push((0..g.cols).map(text).collect::<Vec<_>>());
                }
            }
            _ => {}
        }
    }
    let md = doc.to_markdown().unwrap_or_default();
    let (mut rows, mut outside) = (vec![], vec![String::new()]);
    let mut lines = md.lines().peekable();
    while let Some(l) = lines.next() {
        if l.starts_with("| ") {
            rows.push(l.trim_matches('|').split('|').map(letters).collect::<Vec<_>>());
            if lines.peek().is_some_and(|n| n.starts_with("|---")) {
                outside.push(String::new());
                lines.next();
            }
        } else {
            let number = l.trim_start().split_once(". ").filter(|x| x.0.parse::<u32>().is_ok()).map_or(l, |x| x.1);
            *outside.last_mut().unwrap() += &letters(number);
        }
    }
    if rows != grids || outside != between {
        return viol("tables: the Markdown text shows another document", format!("{md:?} instead of {between:?} {grids:?}"));
    }
    let tex = doc.to_latex("article", false).unwrap_or_default();
    let (mut outside, mut tabular) = (vec![], vec![]);
    for part in tex.split("\\begin{tabular}") {
        let (inside, part) = part.split_once("\\end{tabular}").unwrap_or(("", part));
        for row in inside.split("\n\\hline").skip(1).filter_map(|r| r.strip_suffix(" \\\\")) {
            let mut line = vec![];
            for cell in row.replace("\\&", "").split('&') {
                let span = cell.split_once("\\multicolumn{").and_then(|x| x.1.split_once('}')).map_or(1, |x| x.0.parse().unwrap_or(1));
                let mut text = cell.trim();
                if let Some(x) = text.strip_prefix("\\multicolumn{") {
                    text = x.split_once("{|l|}").map_or("", |x| x.1);
                }
                if let Some(x) = text.trim_start_matches('{').strip_prefix("\\multirow{") {
                    text = x.split_once("{*}").map_or("", |x| x.1);
                }
                line.push(plain(text));
                line.extend((1..span).map(|_| String::new()));
            }
            tabular.push(line);
        }
        outside.push(plain(part));
    }
    if tabular != grids || outside != between || tex.matches("\\end{tabular}").count() + 1 != between.len() {
        return viol("tables: the LaTeX text shows another document", format!("{tex:?} instead of {between:?} {grids:?}"));
    }
    Ok(())
}
/// The paragraphs and tables of a DOCX file: spans of the cells and formatted texts.
fn docx(path: &str) -> Vec<String> {
    let x = match super::export::document_xml(path) {
        Ok(x) => x,
        Err(e) => return vec![e],
    };
    let (mut out, mut format): (Vec<String>, _) = (vec![], String::new());
    for t in x.split("<w:").skip(1) {
        let name = t.split([' ', '>', '/']).next().unwrap();
        match name {
            "tbl" | "tr" | "tc" => out.push(name.to_string()),
            "p" => out.push("p ".into()),
            "r" => format.clear(),
            "gridSpan" | "vMerge" => {
                let v = t.split("w:val=\"").nth(1).and_then(|v| v.split('"').next()).unwrap_or("");
                *out.last_mut().unwrap() += &format!(" {name}={v}");
            }
            "b" | "i" | "u" | "strike" => format += name,
            "t" => {
                let text = t.split_once('>').unwrap().1.split("</").next().unwrap();
                let text = text.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&apos;", "'").replace("&#39;", "'").replace("&amp;", "&");
                letter_by_letter(out.last_mut().unwrap(), &format, &text);
            }
            _ => {}
        }
        if t.contains("</w:tbl>") {
            out.push("end".into());
        }
    }
    out
}
fn letter_by_letter(line: &mut String, format: &str, text: &str) {
    for c in text.chars() {
        *line += &format!("{format}{c:?}");
    }
}
/// The same of the document.
fn docx_of(doc: &TextDocument) -> Vec<String> {
    let line = |b: &BlockSnapshot| {
        let mut l = "p ".to_string();
        for f in &b.fragments {
            if let FragmentContent::Text { text, format: f, .. } = f {
                let on = [(f.font_bold, "b"), (f.font_italic, "i"), (f.font_underline, "u"), (f.font_strikeout, "strike")];
                letter_by_letter(&mut l, &on.iter().filter(|x| x.0 == Some(true)).map(|x| x.1).collect::<String>(), text);
            }
        }
        l
    };
    let mut out = vec![];
    for e in &doc.snapshot_flow().elements {
        match e {
            FlowElementSnapshot::Block(b) => out.push(line(b)),
            FlowElementSnapshot::Table(t) => {
                out.push("tbl".into());
                for r in 0..t.rows {
                    out.push("tr".into());
                    let mut c = 0;
                    while c < t.columns {
                        let Some(x) = t.cells.iter().find(|x| (x.row..x.row + x.row_span).contains(&r) && (x.column..x.column + x.column_span).contains(&c)) else { break };
                        let mut d = "tc".to_string();
                        if x.column_span > 1 {
                            d += &format!(" gridSpan={}", x.column_span);
                        }
                        if x.row_span > 1 {
                            d += if x.row == r { " vMerge=restart" } else { " vMerge=continue" };
                        }
                        out.push(d);
                        match x.row == r {
                            true => out.extend(x.blocks.iter().map(&line)),
                            false => out.push("p ".into()),
                        }
                        c += x.column_span;
                    }
                }
                out.push("end".into());
            }
            _ => {}
        }
    }
    out
}
/// The table (its place in the document) and the cell a cursor is in.
fn spot(k: &TextCursor, s: &State) -> Option<(usize, (usize, usize))> {
    let x = k.current_table_cell()?;
    Some((s.tables.iter().position(|t| t.0 == x.table.id())?, (x.row, x.column)))
}
/// The paragraph outside of the tables at a position, and the offset in it.
fn para_at(doc: &TextDocument, pos: usize) -> Option<(usize, usize)> {
    let blocks = doc.snapshot_flow().elements.into_iter().filter_map(|e| if let FlowElementSnapshot::Block(b) = e { Some(b) } else { None });
    blocks.enumerate().find(|(_, b)| (b.position..=b.position + b.length).contains(&pos)).map(|(i, b)| (i, pos - b.position))
}
/// The cells a selection touches, and the text outside of the tables that it does not take.
fn selection(doc: &TextDocument, (start, end): (usize, usize)) -> (Vec<(usize, usize, usize)>, String) {
    let (mut cells, mut kept, mut tables) = (vec![], String::new(), 0);
    for e in &doc.snapshot_flow().elements {
        match e {
            FlowElementSnapshot::Block(b) => {
                kept.extend(b.text.chars().enumerate().filter(|x| !(start..end).contains(&(b.position + x.0))).map(|x| x.1));
            }
            FlowElementSnapshot::Table(t) => {
                cells.extend(t.cells.iter().filter(|c| c.blocks.iter().any(|b| b.position <= end && b.position + b.length >= start)).map(|c| (tables, c.row, c.column)));
                tables += 1;
            }
            _ => {}
        }
    }
    (cells, kept)
}
/// The offset of a position in its block, and whether that is the block's end.
fn within(doc: &TextDocument, pos: usize) -> (Option<usize>, bool) {
    for b in doc.blocks() {
        if (b.position()..=b.position() + b.length()).contains(&pos) {
            return (Some(pos - b.position()), pos == b.position() + b.length());
        }
    }
    (None, true)
}
pub fn run(plan: &'static Plan) -> Check {
    let doc = TextDocument::new();
    let mut c = Client::new(doc.clone(), 2);
    for s in &plan.setup {
        let o = c.exec(&s.op);
        log(|| format!("{} -> {o:?}", serde_json::to_string(&s.op).unwrap()));
    }
    super::consistency::views(&doc)?;
    let d = |doc: &TextDocument| dump::content(doc, &[]);
    let empty = state(&doc).tables.first().and_then(|t| t.1.cells.first()).map(|c| c.format.clone()).unwrap_or_default();
    let mut hist: Vec<Dump> = vec![d(&doc)];
    let mut at = 0;
    for s in &plan.threads[0] {
        let op = &s.op;
        let before = state(&doc);
        if matches!(op, Op::Undo) && at == 0 || matches!(op, Op::Redo) && at + 1 >= hist.len() {
            continue;
        }
        // Calls on a table need one.
        if match op {
            Op::TableRow { .. } | Op::TableCol { .. } | Op::MergeCells { .. } => before.tables.is_empty(),
            _ => false,
        } {
            continue;
        }
        let k = c.cursors[0].as_ref().unwrap();
        let here = spot(k, &before);
        let inside = spot(c.cursors[1].as_ref().unwrap(), &before);
        let pos = within(&doc, k.position()).0;
        let there = within(&doc, c.cursors[1].as_ref().unwrap().position());
        if matches!(op, Op::DeleteChar { .. }) && there.1 || matches!(op, Op::DeletePrev { .. }) && there.0 == Some(0) {
            // Joining cells is not claimed.
            continue;
        }
        let sel = c.cursors[1].as_ref().map(|k| (k.selection_start(), k.selection_end())).unwrap();
        let ends = [sel.0, sel.1].map(|p| (spot(&doc.cursor_at(p), &before), para_at(&doc, p)));
        if matches!(op, Op::RemoveSelected { .. }) && sel.0 == sel.1 {
            continue;
        }
        // Without a selection, an occurrence or a list there is nothing to do.
        let idle = match op {
            Op::SetCharFormat { .. } | Op::MergeCharFormat { .. } => sel.0 == sel.1,
            Op::Replace { query, .. } => !doc.blocks().iter().any(|b| b.text().contains(query)),
            Op::RemoveFromList { .. } => doc.cursor_at(c.cursors[1].as_ref().unwrap().position()).current_list().is_none(),
            _ => false,
        };
        if idle {
            continue;
        }
        let (touched, kept) = selection(&doc, sel);
        // What is left of the tables when the selection is taken out of them.
        let across = ends[0].0 != ends[1].0 || (ends[0].0.is_none() && !touched.is_empty());
        let mut emptied = vec![];
        for (i, (_, g)) in before.tables.iter().enumerate() {
            let mut g = g.clone();
            let mut all = true;
            for c in &mut g.cells {
                let hit = touched.contains(&(i, c.row, c.col));
                all &= hit;
                if hit {
                    c.text.clear();
                }
            }
            let within = ends.iter().all(|e| e.0.is_some_and(|x| x.0 == i));
            if !all || within {
                emptied.push(g);
            }
        }
        let (o, f) = super::atomic::armed(s.fail_at, || c.exec(op));
        log(|| format!("{} fault {:?} -> {o:?}", serde_json::to_string(op).unwrap(), f.fired));
        let now = state(&doc);
        let n = format!("{op:?}");
        let n = n.split([' ', '{']).next().unwrap();
        let cell = |what: &str, d: String| -> Check { viol(format!("tables: {what} after {n}"), d) };
        if let Some(f) = now.tables.iter().find_map(|t| t.1.flaw()) {
            return cell("broken grid", f);
        }
        if let Err(mut v) = super::consistency::views(&doc) {
            v.class += &format!(" after {n}");
            return Err(v);
        }
        let (shows, holds) = (page(&doc.to_html().unwrap_or_default()), pages(&doc));
        if shows != holds {
            return cell("the HTML page shows another document", format!("{shows:?} instead of {holds:?}"));
        }
        exported(&doc)?;
        if f.fired.is_some() {
            count(if o.ok { "faults_survived" } else { "faults_failing_the_call" }, 1);
            if !o.ok {
                if let Some((s, m)) = hist[at].diff(&d(&doc)) {
                    return viol(format!("tables: failed {n} changes the document ({s})"), m);
                }
                continue;
            }
            if n.starts_with("Insert") {
                // A fault that was worked around changes what undo takes back.
                doc.clear_undo_redo();
                hist = vec![d(&doc)];
                at = 0;
                continue;
            }
        }
        // The table the call is about, and what becomes of it.
        let ntables = before.tables.len();
        let target = match op {
            Op::TableRow { table, .. } | Op::TableCol { table, .. } | Op::MergeCells { table, .. } if ntables > 0 => Some(table % ntables),
            Op::InsertText { c: 1, .. } | Op::InsertFormatted { .. } | Op::InsertPlainFragment { .. } => inside.map(|x| x.0),
            Op::DeleteChar { .. } | Op::DeletePrev { .. } | Op::InsertBlock { .. } | Op::InsertList { .. } | Op::SetBlockFormat { .. } | Op::RemoveSelected { .. } => inside.map(|x| x.0),
            _ => here.map(|x| x.0),
        };
        let none = Grid::default();
        let g = target.map_or(&none, |t| &before.tables[t].1);
        let want = match (op, here.map(|x| x.1)) {
            (Op::TableRow { at, insert: true, .. }, _) if ntables > 0 => Some(g.insert_row(*at, &empty)),
            (Op::TableRow { at, .. }, _) if ntables > 0 => Some(g.remove_row(*at)),
            (Op::TableCol { at, insert: true, .. }, _) if ntables > 0 => Some(g.turn().insert_row(*at, &empty).map(|g| g.turn())),
            (Op::TableCol { at, .. }, _) if ntables > 0 => Some(g.turn().remove_row(*at).map(|g| g.turn())),
            (Op::RowAbove { .. }, Some(h)) => Some(g.insert_row(h.0, &empty)),
            (Op::RowBelow { .. }, Some(h)) => Some(g.insert_row(h.0 + 1, &empty)),
            (Op::ColBefore { .. }, Some(h)) => Some(g.turn().insert_row(h.1, &empty).map(|g| g.turn())),
            (Op::ColAfter { .. }, Some(h)) => Some(g.turn().insert_row(h.1 + 1, &empty).map(|g| g.turn())),
            (Op::RemoveRow { .. }, Some(h)) => Some(g.remove_row(h.0)),
            (Op::RemoveCol { .. }, Some(h)) => Some(g.turn().remove_row(h.1).map(|g| g.turn())),
            (Op::MergeCells { r0, c0, r1, c1, .. }, _) if ntables > 0 => Some(g.merge(*r0, *c0, *r1, *c1)),
            (Op::SplitCell { rows, cols, .. }, Some(h)) => Some(g.split(h.0, h.1, *rows, *cols, &empty)),
            _ => None,
        };
        // Everything but the target is as it was.
        let rest = |s: &State, without: Option<usize>| -> Vec<Grid> { s.tables.iter().enumerate().filter(|x| Some(x.0) != without).map(|x| x.1.1.clone()).collect() };
        let shown = |s: &State| format!("{:?} {:?}", s.tables, s.paras);
        let instead = || format!("{} instead of {}", shown(&now), shown(&before));
        match op {
            Op::Undo | Op::Redo => {}
            Op::InsertTable { rows, cols, .. } => {
                let fresh = now.tables.iter().position(|t| !before.tables.iter().any(|b| b.0 == t.0));
                let all_empty = fresh.is_some_and(|i| {
                    let g = &now.tables[i].1;
                    (g.rows, g.cols) == (*rows, *cols) && g.cells.iter().all(|c| (&c.text[..], &c.format) == ("", &empty))
                });
                if !o.ok || !all_empty || rest(&now, fresh) != rest(&before, None) || now.paras != before.paras {
                    return cell("another document", instead());
                }
            }
            Op::RemoveTable { .. } if here.is_some() => {
                // A document is never without a paragraph.
                let mut paras = before.paras.clone();
                if paras.is_empty() && before.tables.len() == 1 {
                    paras.push(Default::default());
                }
                if !o.ok || rest(&now, None) != rest(&before, target) || now.paras != paras {
                    return cell("another document", instead());
                }
            }
            Op::SetCharFormat { .. } | Op::MergeCharFormat { .. } | Op::SetBlockFormat { .. } | Op::CreateList { .. } | Op::RemoveFromList { .. } => {
                if rest(&now, None) != rest(&before, None) || now.paras != before.paras {
                    return cell("another document", instead());
                }
            }
            Op::Replace { query, with, .. } => {
                let mut tables = rest(&before, None);
                for c in tables.iter_mut().flat_map(|g| &mut g.cells) {
                    c.text = c.text.replace(query, with);
                }
                let paras: Vec<String> = before.paras.iter().map(|p| p.replace(query, with)).collect();
                if o.ok && (rest(&now, None) != tables || now.paras != paras) {
                    return cell("another document", instead());
                }
            }
            Op::RemoveSelected { .. } if ends[0].1.is_some() && ends[1].1.is_some() && touched.is_empty() => {
                let ((i, a), (j, b)) = (ends[0].1.unwrap(), ends[1].1.unwrap());
                let mut paras = before.paras.clone();
                let tail: String = paras[j].chars().skip(b).collect();
                let head: String = paras[i].chars().take(a).collect();
                paras.splice(i..=j, [head + &tail]);
                if !o.ok || rest(&now, None) != rest(&before, None) || now.paras != paras {
                    return cell("another document", instead());
                }
            }
            // A selection which leaves a cell empties the cells it touches, and
            // takes a table along that it reaches beyond and leaves nothing of;
            // the two ends are not joined.
            Op::InsertBlock { .. } if across => {}
            Op::RemoveSelected { .. } if across => {
                if !o.ok || rest(&now, None) != emptied || now.paras.concat() != kept {
                    return cell("another document", instead());
                }
            }
            Op::InsertText { c: 1, text } | Op::InsertFormatted { text, .. } if across => {
                let chars = |t: String| {
                    let mut t: Vec<char> = t.chars().collect();
                    t.sort();
                    t
                };
                let others: String = emptied.iter().flat_map(|g| &g.cells).map(|x| &x.text[..]).collect();
                let all: String = now.tables.iter().flat_map(|t| &t.1.cells).map(|x| &x.text[..]).collect::<String>() + &now.paras.concat();
                if !o.ok || chars(all) != chars(kept + &others + text) {
                    return cell("another document", instead());
                }
            }
            _ if now.tables.len() != before.tables.len() || rest(&now, target) != rest(&before, target) => return cell("changes elsewhere", instead()),
            _ => {}
        }
        let g2 = target.and_then(|t| now.tables.get(t)).map_or(&none, |t| &t.1);
        match (op, want) {
            (Op::Undo | Op::Redo, _) => {
                if !o.ok {
                    return cell("fails", o.val);
                }
                at = if *op == Op::Undo { at - 1 } else { at + 1 };
                if let Some((s, m)) = hist[at].diff(&d(&doc)) {
                    return viol(format!("tables: {n} is not exact ({s})"), m);
                }
                continue;
            }
            (_, Some(want)) => {
                if o.ok != want.is_some() {
                    return cell(if o.ok { "impossible call succeeds" } else { "call fails" }, format!("{o:?} {g:?}"));
                }
                let want = want.unwrap_or(g.clone());
                if *g2 != want {
                    return cell("another grid", format!("{g2:?} instead of {want:?}"));
                }
                if now.paras != before.paras {
                    return cell("another text outside", format!("{:?} instead of {:?}", now.paras, before.paras));
                }
            }
            (Op::InsertTable { .. } | Op::RemoveTable { .. }, _) => {}
            (Op::InsertText { c: 1, .. } | Op::InsertFormatted { .. } | Op::InsertBlock { .. }, _) if sel.0 != sel.1 => {}
            (
                Op::SetCharFormat { .. } | Op::MergeCharFormat { .. } | Op::SetBlockFormat { .. } | Op::CreateList { .. } | Op::RemoveFromList { .. } | Op::Replace { .. },
                _,
            ) => {}
            (Op::RemoveSelected { .. }, _) if across || ends[0].0.is_none() => {}
            (Op::InsertText { c, text }, None) if o.ok && target.is_some() && if *c == 0 { pos } else { there.0 }.is_some() => {
                let (h, pos) = if *c == 0 { (here.unwrap().1, pos) } else { (inside.unwrap().1, there.0) };
                let mut want = g.clone();
                let x = want.cells.iter_mut().find(|c| (c.row, c.col) == h).unwrap();
                if !x.text.contains('\n') {
                    let i = x.text.char_indices().nth(pos.unwrap()).map_or(x.text.len(), |x| x.0);
                    x.text.insert_str(i, text);
                    if *g2 != want {
                        return cell("another text", format!("{g2:?} instead of {want:?}"));
                    }
                }
                if now.paras != before.paras {
                    return cell("another text outside", instead());
                }
            }
            (Op::SetFrac { .. } | Op::IntoCell { .. } | Op::Sleep { .. }, _) => continue,
            _ => {
                // An edit in one cell, or outside: all others are as before.
                let (mut a, mut b) = (g.clone(), g2.clone());
                let h = match op {
                    Op::SetTableFormat { .. } => None,
                    Op::SetCellFormat { .. } | Op::InsertText { c: 0, .. } => here,
                    _ => inside,
                };
                for g in [&mut a, &mut b] {
                    for c in &mut g.cells {
                        if h.is_some_and(|h| h.1 == (c.row, c.col)) {
                            (c.text, c.format) = Default::default();
                        }
                    }
                }
                if a != b || (h.is_some() && now.paras != before.paras) {
                    return cell("changes elsewhere", instead());
                }
            }
        }
        if o.ok {
            hist.truncate(at + 1);
            hist.push(d(&doc));
            at += 1;
        } else if let Some((s, m)) = hist[at].diff(&d(&doc)) {
            return viol(format!("tables: failed {n} changes the document ({s})"), m);
        }
    }
    if plan.seed % 4 == 0 {
        const OUT: &str = "/simdisk/tables.docx";
        if let Err(e) = doc.to_docx(OUT).and_then(|o| o.wait()) {
            return viol("tables: the DOCX export fails", e.to_string());
        }
        let (shows, holds) = (docx(OUT), docx_of(&doc));
        if shows != holds {
            return viol("tables: the DOCX file shows another document", format!("{shows:?} instead of {holds:?}"));
        }
    }
    Ok(())
}
