//! Random operation generators.
use crate::plan::{Fmt, Op, Step};
use crate::rng::Rng;

pub const WORDS: [&str; 18] = ["aaa", "İ", "a", "ab", "foo", "bar", "x y", "hello", " ", "é", "日本", "👋🏻", "e\u{301}", "foo foo", "Z", "0", "tail ", "/* c */"];
pub fn word(r: &mut Rng) -> String {
    r.pick(&WORDS).to_string()
}
pub fn line(r: &mut Rng, n: usize) -> String {
    (0..r.range(0, n)).map(|_| word(r)).collect()
}
pub fn para(r: &mut Rng, blocks: usize) -> String {
    let n = r.range(1, blocks);
    (0..n).map(|_| line(r, 4)).collect::<Vec<_>>().join("\n")
}
pub fn fmt(r: &mut Rng) -> Fmt {
    let mut f = Fmt::default();
    match r.below(5) {
        0 => f.bold = Some(r.chance(3, 4)),
        1 => f.italic = Some(r.chance(3, 4)),
        2 => f.underline = Some(r.chance(3, 4)),
        3 => f.size = Some(r.range(8, 12) as u32),
        _ => f.family = Some(r.pick(&["Mono", "Serif"]).to_string()),
    }
    f
}
pub fn markdown(r: &mut Rng, tables: bool) -> String {
    let parts = ["# Title", "plain *it* and **bold**", "- one\n- two\n- three", "1. first\n2. second", "`code` text", "last line", "> quoted\n>\n> *more*\n>\n> - of it", "| a | b |\n|---|---|\n| 1 | 2 |"];
    let n = if tables { parts.len() } else { parts.len() - 1 };
    (0..r.range(1, 3)).map(|_| *r.pick(&parts[..n])).collect::<Vec<_>>().join("\n\n")
}
pub fn html(r: &mut Rng, tables: bool) -> String {
    let parts = ["<h2>Head</h2>", "<p>one <b>two</b> <i>three</i></p>", "<ul><li>x</li><li>y</li></ul>", "<ol><li>1</li></ol>", "<p>tail</p>", "inline <u>u</u>", "<blockquote><p>bq <b>xy</b></p><ul><li>in</li></ul></blockquote>", "<table><tr><td>a</td><td>b</td></tr><tr><td>c</td><td>d</td></tr></table>"];
    let n = if tables { parts.len() } else { parts.len() - 1 };
    (0..r.range(1, 3)).map(|_| *r.pick(&parts[..n])).collect::<String>()
}
/// What a document starts from: nothing, plain text or an import, with quotations as well.
pub fn origin(r: &mut Rng, n: usize) -> Vec<Step> {
    match r.below(10) {
        0 | 1 => vec![],
        2 => vec![Op::StartMarkdown { text: markdown(r, false) }.into(), Op::OpWait { o: 0 }.into()],
        3 => vec![Op::StartHtml { text: html(r, false) }.into(), Op::OpWait { o: 0 }.into()],
        _ => vec![Op::SetPlainText { text: para(r, n) }.into()],
    }
}
/// Relative weights of operation families.
#[derive(Clone, Copy, Default)]
pub struct Mix {
    pub moves: u32,
    pub text: u32,
    pub rich: u32,
    pub image: u32,
    pub format: u32,
    pub list: u32,
    pub table: u32,
    pub frame: u32,
    pub doc: u32,
    pub replace: u32,
    pub history: u32,
    pub composite: u32,
    pub clip: u32,
    pub meta: u32,
    pub reads: u32,
    pub reset: u32,
}
impl Mix {
    fn weights(&self) -> [u32; 16] {
        [self.moves, self.text, self.rich, self.image, self.format, self.list, self.table, self.frame, self.doc, self.replace, self.history, self.composite, self.clip, self.meta, self.reads, self.reset]
    }
}
pub fn move_op(r: &mut Rng, c: usize) -> Op {
    match r.below(6) {
        0 => Op::SetPos { c, pos: r.below(40), keep: r.chance(1, 3) },
        1 | 2 => Op::SetFrac { c, frac: r.below(65537) as u32, keep: r.chance(2, 5) },
        3 => Op::Select { c, kind: r.below(4) as u8 },
        _ => Op::Move { c, op: r.below(21) as u8, keep: r.chance(2, 5), n: r.range(1, 4) },
    }
}
pub fn text_op(r: &mut Rng, c: usize) -> Op {
    match r.weighted(&[6, 3, 2, 2, 2, 2]) {
        0 => Op::InsertText { c, text: if r.chance(1, 8) { line(r, 6) } else { word(r) } },
        1 => Op::InsertBlock { c },
        2 => Op::DeleteChar { c },
        3 => Op::DeletePrev { c },
        4 => Op::RemoveSelected { c },
        _ => Op::InsertFormatted { c, text: word(r), fmt: fmt(r) },
    }
}
pub fn op(r: &mut Rng, m: &Mix, ncur: usize) -> Op {
    let c = r.below(ncur.max(1));
    match r.weighted(&m.weights()) {
        0 => move_op(r, c),
        1 => text_op(r, c),
        2 => match r.below(3) {
            0 => Op::InsertHtml { c, text: html(r, m.table > 0) },
            1 => Op::InsertMarkdown { c, text: markdown(r, m.table > 0) },
            _ => Op::InsertPlainFragment { c, text: para(r, 3) },
        },
        3 => Op::InsertImage { c, name: r.pick(&["pic", "img2"]).to_string(), w: r.range(1, 9) as u32, h: r.range(1, 9) as u32 },
        4 => match r.below(3) {
            0 => Op::SetCharFormat { c, fmt: fmt(r) },
            1 => Op::MergeCharFormat { c, fmt: fmt(r) },
            _ => Op::SetBlockFormat {
                c,
                heading: r.chance(1, 2).then(|| r.range(0, 3) as u8),
                align: r.chance(1, 2).then(|| r.below(4) as u8),
                indent: r.chance(1, 3).then(|| r.below(3) as u8),
            },
        },
        5 => match r.below(6) {
            0 | 1 => Op::CreateList { c, style: r.below(8) as u8 },
            2 => Op::InsertList { c, style: r.below(8) as u8 },
            3 => Op::SetListFormat { c, style: r.below(8) as u8, indent: r.below(3) as u8 },
            4 => Op::AddToList { c },
            _ => {
                if r.chance(1, 2) {
                    Op::RemoveFromList { c }
                } else {
                    Op::RemoveListItem { c, index: r.below(3) }
                }
            }
        },
        6 => match r.below(14) {
            0 | 1 => Op::InsertTable { c, rows: r.range(1, 3), cols: r.range(1, 3) },
            2 | 3 => Op::IntoCell { c, table: r.below(2), row: r.below(3), col: r.below(3) },
            4 => Op::RowAbove { c },
            5 => Op::RowBelow { c },
            6 => Op::ColBefore { c },
            7 => Op::ColAfter { c },
            8 => Op::RemoveRow { c },
            9 => Op::RemoveCol { c },
            10 => Op::RemoveTable { c },
            11 => Op::MergeCells { c, table: r.below(2), r0: r.below(2), c0: r.below(2), r1: r.below(3), c1: r.below(3) },
            12 => Op::SplitCell { c, rows: r.range(1, 2), cols: r.range(1, 2) },
            _ => {
                if r.chance(1, 2) {
                    Op::SetTableFormat { c, border: r.below(5) as i32, align: r.below(4) as u8 }
                } else {
                    Op::SetCellFormat { c, padding: r.below(5) as i32, color: r.pick(&["red", "blue"]).to_string() }
                }
            }
        },
        7 => {
            if r.chance(2, 3) {
                Op::InsertFrame { c }
            } else {
                Op::SetFrameFormat { c, frame: r.below(2), w: r.below(100) as i32 }
            }
        }
        8 => match r.below(3) {
            0 => Op::SetPlainText { text: para(r, 4) },
            1 => Op::Clear,
            _ => Op::ClearUndo,
        },
        9 => Op::Replace {
            query: r.pick(&["foo", "a", "o", "bar", "l+", "aa", "oo", "foo foo", "É", "日", "i"]).to_string(),
            with: r.pick(&["", "X", "foo2", "longer text"]).to_string(),
            all: r.chance(2, 3),
            case: r.chance(1, 2),
            regex: r.chance(1, 3),
        },
        10 => {
            if r.chance(3, 5) {
                Op::Undo
            } else {
                Op::Redo
            }
        }
        11 => {
            if r.chance(1, 2) {
                Op::BeginEdit { c }
            } else {
                Op::EndEdit { c }
            }
        }
        12 => {
            if r.chance(1, 2) {
                Op::Copy { c }
            } else {
                Op::Paste { c }
            }
        }
        13 => match r.below(5) {
            0 => Op::SetTitle { text: word(r) },
            1 => Op::SetDirection { rtl: r.chance(1, 2) },
            2 => Op::SetWrap { w: r.below(4) as u8 },
            3 => Op::AddResource { name: r.pick(&["pic", "img2"]).to_string(), data: vec![r.below(256) as u8; r.below(6)] },
            _ => Op::SetModified { on: r.chance(1, 2) },
        },
        14 => match r.below(8) {
            0 => Op::ReadText,
            1 => Op::ReadStats,
            2 => Op::ReadTextAt { pos: r.below(20), len: r.below(20) },
            3 => Op::ReadFlow,
            4 => Op::ReadFind { query: r.pick(&["foo", "a"]).to_string() },
            5 => Op::ReadBlockAt { pos: r.below(20) },
            6 => Op::ReadHtml,
            _ => Op::ReadMarkdown,
        },
        _ => Op::SetPlainText { text: para(r, 3) },
    }
}
pub fn steps(r: &mut Rng, m: &Mix, ncur: usize, n: usize) -> Vec<Step> {
    (0..n).map(|_| Step::from(op(r, m, ncur))).collect()
}
