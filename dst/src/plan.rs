//! What one simulated run is made of. A `Plan` is plain data: replay files
//! contain it verbatim and the minimiser edits it.
use crate::sim::{Choice, Disk, Sched};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Fmt {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub bold: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub italic: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub underline: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub size: Option<u32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub family: Option<String>,
}

/// One call on the public API (plus simulator actions). `c` is the index of the
/// client's own cursor; positions are absolute and clamped by the library.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    // cursor movement
    SetPos { c: usize, pos: usize, keep: bool },
    /// Position as a fraction (of 65536) of the current document length.
    SetFrac { c: usize, frac: u32, keep: bool },
    Move { c: usize, op: u8, keep: bool, n: usize },
    Select { c: usize, kind: u8 },
    // text editing
    InsertText { c: usize, text: String },
    InsertFormatted { c: usize, text: String, fmt: Fmt },
    InsertBlock { c: usize },
    InsertHtml { c: usize, text: String },
    InsertMarkdown { c: usize, text: String },
    InsertPlainFragment { c: usize, text: String },
    InsertImage { c: usize, name: String, w: u32, h: u32 },
    InsertFrame { c: usize },
    InsertTable { c: usize, rows: usize, cols: usize },
    InsertList { c: usize, style: u8 },
    CreateList { c: usize, style: u8 },
    DeleteChar { c: usize },
    DeletePrev { c: usize },
    RemoveSelected { c: usize },
    Copy { c: usize },
    Paste { c: usize },
    // formatting
    SetCharFormat { c: usize, fmt: Fmt },
    MergeCharFormat { c: usize, fmt: Fmt },
    SetBlockFormat { c: usize, heading: Option<u8>, align: Option<u8>, indent: Option<u8> },
    SetFrameFormat { c: usize, frame: usize, w: i32 },
    SetListFormat { c: usize, style: u8, indent: u8 },
    AddToList { c: usize },
    RemoveFromList { c: usize },
    RemoveListItem { c: usize, index: usize },
    // tables (current table of cursor, or the n-th table of the document)
    IntoCell { c: usize, table: usize, row: usize, col: usize },
    RowAbove { c: usize },
    RowBelow { c: usize },
    ColBefore { c: usize },
    ColAfter { c: usize },
    RemoveRow { c: usize },
    RemoveCol { c: usize },
    RemoveTable { c: usize },
    MergeCells { c: usize, table: usize, r0: usize, c0: usize, r1: usize, c1: usize },
    TableRow { c: usize, table: usize, at: usize, insert: bool },
    TableCol { c: usize, table: usize, at: usize, insert: bool },
    SplitCell { c: usize, rows: usize, cols: usize },
    SelectCells { c: usize, table: usize, r0: usize, c0: usize, r1: usize, c1: usize },
    SetTableFormat { c: usize, border: i32, align: u8 },
    SetCellFormat { c: usize, padding: i32, color: String },
    // whole document
    SetPlainText { text: String },
    Clear,
    Replace { query: String, with: String, all: bool, case: bool, regex: bool },
    AddResource { name: String, data: Vec<u8> },
    SetTitle { text: String },
    SetDirection { rtl: bool },
    SetWrap { w: u8 },
    SetModified { on: bool },
    // history
    Undo,
    Redo,
    ClearUndo,
    BeginEdit { c: usize },
    EndEdit { c: usize },
    // reads
    ReadText,
    ReadStats,
    ReadTextAt { pos: usize, len: usize },
    ReadFlow,
    ReadBlocks,
    ReadFind { query: String },
    ReadBlockAt { pos: usize },
    ReadHtml,
    ReadMarkdown,
    ReadLatex,
    ReadCursor { c: usize },
    ReadSelected { c: usize },
    ReadResource { name: String },
    ReadFlags,
    ReadMisc { pos: usize, len: usize },
    ReadCursorAll { c: usize },
    /// Keep handles of the n-th block, its list, frame and table.
    Keep { n: usize },
    ReadKept,
    ClearCellSelection { c: usize },
    // handles
    NewCursor { frac: u32 },
    CloneCursor { c: usize },
    DropCursor { c: usize },
    CloneDoc,
    DropDoc,
    // events
    Subscribe { behaviour: u8 },
    Unsubscribe { s: usize },
    Poll,
    // highlighting
    SetHighlighter { kind: u8 },
    Rehighlight,
    RehighlightBlock { n: usize },
    // long operations
    StartMarkdown { text: String },
    StartHtml { text: String },
    StartDocx { path: String },
    OpWait { o: usize },
    OpWaitTimeout { o: usize, ms: u64 },
    OpTry { o: usize },
    OpProgress { o: usize },
    OpIsDone { o: usize },
    OpCancel { o: usize },
    OpDrop { o: usize },
    // simulator
    Sleep { ms: u64 },
    WallJump { ms: i64 },
    DiskFaults { d: Disk },
    Check,
    // the command line program
    /// A file with this text, `times` over; `bad`: and a byte that is not UTF-8.
    PutFile { path: String, data: String, times: usize, bad: bool },
    Cli { args: Vec<String> },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Step {
    pub op: Op,
    /// Fail the n-th internal unit-of-work action of this call (1-based; 0 = none).
    #[serde(default, skip_serializing_if = "is_zero")]
    pub fail_at: u32,
}
fn is_zero(n: &u32) -> bool {
    *n == 0
}
impl From<Op> for Step {
    fn from(op: Op) -> Step {
        Step { op, fail_at: 0 }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Plan {
    pub property: String,
    pub scenario: String,
    pub seed: u64,
    #[serde(default)]
    pub params: BTreeMap<String, i64>,
    #[serde(default)]
    pub setup: Vec<Step>,
    pub threads: Vec<Vec<Step>>,
    pub sched: Sched,
}
impl Plan {
    pub fn param(&self, k: &str) -> i64 {
        self.params.get(k).copied().unwrap_or(0)
    }
    pub fn ops(&self) -> usize {
        self.setup.len() + self.threads.iter().map(|t| t.len()).sum::<usize>()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Request {
    pub plan: Plan,
    /// Some = follow exactly these choices; None = draw them from the plan's schedule seed.
    pub replay: Option<Vec<Choice>>,
    #[serde(default)]
    pub trace: bool,
    /// Return function coverage bits.
    #[serde(default)]
    pub cov: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
#[serde(default)]
pub struct Response {
    /// "ok" | "violation" | "internal"
    pub verdict: String,
    /// Short stable name of what went wrong (no positions or ids).
    pub class: String,
    pub detail: String,
    /// Signatures of listed known findings that this run hit (run continues or stops without alarm).
    pub known: Vec<String>,
    pub hash: u64,
    pub log_hash: u64,
    pub steps: u64,
    pub switches: u64,
    pub threads: u64,
    pub funcs: u64,
    pub virtual_ns: i64,
    pub counters: BTreeMap<String, u64>,
    pub cov: Vec<u16>,
    pub choices: Vec<Choice>,
    pub trace: Vec<String>,
}
impl Response {
    pub fn internal(s: &str) -> Self {
        Response { verdict: "internal".into(), class: s.into(), ..Default::default() }
    }
    pub fn bad(&self) -> bool {
        self.verdict == "violation"
    }
}
