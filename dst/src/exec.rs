//! Applies one plan step to the real public API.
use crate::plan::{Fmt, Op};
use std::time::Duration;
use text_document::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Out {
    pub ok: bool,
    pub val: String,
}
impl Out {
    pub fn ok(v: impl Into<String>) -> Out {
        Out { ok: true, val: v.into() }
    }
    pub fn err(e: impl std::fmt::Display) -> Out {
        Out { ok: false, val: format!("{e}") }
    }
    pub fn skip() -> Out {
        Out { ok: true, val: "skip".into() }
    }
    pub fn of<T>(r: Result<T>, f: impl FnOnce(T) -> String) -> Out {
        match r {
            Ok(v) => Out::ok(f(v)),
            Err(e) => Out::err(e),
        }
    }
}
pub enum LongOp {
    Md(Operation<MarkdownImportResult>),
    Html(Operation<HtmlImportResult>),
    Docx(Operation<DocxExportResult>),
}
macro_rules! on_op {
    ($o:expr, $x:ident => $e:expr) => {
        match $o {
            LongOp::Md($x) => $e,
            LongOp::Html($x) => $e,
            LongOp::Docx($x) => $e,
        }
    };
}
impl LongOp {
    pub fn id(&self) -> String {
        on_op!(self, o => o.id().to_string())
    }
    pub fn is_done(&self) -> bool {
        on_op!(self, o => o.is_done())
    }
    pub fn cancel(&self) {
        on_op!(self, o => o.cancel())
    }
    pub fn progress(&self) -> Option<(f64, String)> {
        on_op!(self, o => o.progress())
    }
    pub fn wait(self) -> Result<String> {
        match self {
            LongOp::Md(o) => o.wait().map(|r| format!("blocks={}", r.block_count)),
            LongOp::Html(o) => o.wait().map(|r| format!("blocks={}", r.block_count)),
            LongOp::Docx(o) => o.wait().map(|r| format!("path={} paragraphs={}", r.file_path, r.paragraph_count)),
        }
    }
    pub fn wait_timeout(self, d: Duration) -> Option<Result<String>> {
        match self {
            LongOp::Md(o) => o.wait_timeout(d).map(|r| r.map(|r| format!("blocks={}", r.block_count))),
            LongOp::Html(o) => o.wait_timeout(d).map(|r| r.map(|r| format!("blocks={}", r.block_count))),
            LongOp::Docx(o) => o.wait_timeout(d).map(|r| r.map(|r| format!("path={} paragraphs={}", r.file_path, r.paragraph_count))),
        }
    }
    pub fn try_result(&mut self) -> Option<Result<String>> {
        match self {
            LongOp::Md(o) => o.try_result().map(|r| r.map(|r| format!("blocks={}", r.block_count))),
            LongOp::Html(o) => o.try_result().map(|r| r.map(|r| format!("blocks={}", r.block_count))),
            LongOp::Docx(o) => o.try_result().map(|r| r.map(|r| format!("path={} paragraphs={}", r.file_path, r.paragraph_count))),
        }
    }
}

/// One client of the document: its own handle, cursors, clipboard and operations.
pub struct Client {
    pub doc: Option<TextDocument>,
    pub spare: Vec<TextDocument>,
    pub cursors: Vec<Option<TextCursor>>,
    /// Cursors shared with other clients; used when not empty.
    pub shared: Vec<std::sync::Arc<TextCursor>>,
    pub clip: DocumentFragment,
    pub ops: Vec<Option<LongOp>>,
    pub op_ids: Vec<String>,
    pub subs: Vec<Option<Subscription>>,
    /// Handles kept while the document changes.
    pub kept: Vec<TextBlock>,
    pub kept_lists: Vec<TextList>,
}

pub const STYLES: [ListStyle; 8] = [
    ListStyle::Disc,
    ListStyle::Circle,
    ListStyle::Square,
    ListStyle::Decimal,
    ListStyle::LowerAlpha,
    ListStyle::UpperAlpha,
    ListStyle::LowerRoman,
    ListStyle::UpperRoman,
];
pub const MOVES: [MoveOperation; 21] = [
    MoveOperation::NoMove,
    MoveOperation::Start,
    MoveOperation::End,
    MoveOperation::StartOfLine,
    MoveOperation::EndOfLine,
    MoveOperation::StartOfBlock,
    MoveOperation::EndOfBlock,
    MoveOperation::StartOfWord,
    MoveOperation::EndOfWord,
    MoveOperation::PreviousBlock,
    MoveOperation::NextBlock,
    MoveOperation::PreviousCharacter,
    MoveOperation::NextCharacter,
    MoveOperation::PreviousWord,
    MoveOperation::NextWord,
    MoveOperation::Up,
    MoveOperation::Down,
    MoveOperation::Left,
    MoveOperation::Right,
    MoveOperation::WordLeft,
    MoveOperation::WordRight,
];
pub fn mode(keep: bool) -> MoveMode {
    if keep { MoveMode::KeepAnchor } else { MoveMode::MoveAnchor }
}
pub fn text_format(f: &Fmt) -> TextFormat {
    TextFormat {
        font_bold: f.bold,
        font_italic: f.italic,
        font_underline: f.underline,
        font_point_size: f.size,
        font_family: f.family.clone(),
        ..Default::default()
    }
}
/// All tables of the main flow (and of nested frames), in order.
pub fn tables(doc: &TextDocument) -> Vec<TextTable> {
    fn walk(f: Vec<FlowElement>, out: &mut Vec<TextTable>) {
        for e in f {
            match e {
                FlowElement::Table(t) => out.push(t),
                FlowElement::Frame(f) => walk(f.flow(), out),
                FlowElement::Block(_) => {}
            }
        }
    }
    let mut v = vec![];
    walk(doc.flow(), &mut v);
    v
}
pub fn frames(doc: &TextDocument) -> Vec<TextFrame> {
    fn walk(f: Vec<FlowElement>, out: &mut Vec<TextFrame>) {
        for e in f {
            if let FlowElement::Frame(f) = e {
                walk(f.flow(), out);
                out.push(f);
            }
        }
    }
    let mut v = vec![];
    walk(doc.flow(), &mut v);
    v
}
/// Distinct lists in document order.
pub fn lists(doc: &TextDocument) -> Vec<TextList> {
    let mut v: Vec<TextList> = vec![];
    for b in doc.blocks() {
        if let Some(l) = b.list() {
            if !v.iter().any(|x| x.id() == l.id()) {
                v.push(l)
            }
        }
    }
    v
}

impl Client {
    pub fn new(doc: TextDocument, ncur: usize) -> Client {
        let cursors = (0..ncur).map(|_| Some(doc.cursor())).collect();
        Client { doc: Some(doc), spare: vec![], cursors, shared: vec![], clip: DocumentFragment::new(), ops: vec![], op_ids: vec![], subs: vec![], kept: vec![], kept_lists: vec![] }
    }
    pub fn cur(&self, c: usize) -> Option<&TextCursor> {
        if !self.shared.is_empty() {
            return Some(&self.shared[c % self.shared.len()]);
        }
        if self.cursors.is_empty() {
            return None;
        }
        self.cursors[c % self.cursors.len()].as_ref()
    }
    pub fn exec(&mut self, op: &Op) -> Out {
        use Op::*;
        macro_rules! cur {
            ($c:expr) => {
                match self.cur(*$c) {
                    Some(c) => c,
                    None => return Out::skip(),
                }
            };
        }
        macro_rules! doc {
            () => {
                match self.doc.as_ref() {
                    Some(d) => d,
                    None => return Out::skip(),
                }
            };
        }
        let unit = |r: Result<()>| Out::of(r, |_| String::new());
        match op {
            SetPos { c, pos, keep } => {
                cur!(c).set_position(*pos, mode(*keep));
                Out::ok("")
            }
            SetFrac { c, frac, keep } => {
                let n = doc!().character_count() + doc!().block_count();
                cur!(c).set_position((n as u64 * *frac as u64 / 65536) as usize, mode(*keep));
                Out::ok("")
            }
            Move { c, op, keep, n } => Out::ok(cur!(c).move_position(MOVES[*op as usize % MOVES.len()], mode(*keep), *n).to_string()),
            Select { c, kind } => {
                let k = [SelectionType::WordUnderCursor, SelectionType::LineUnderCursor, SelectionType::BlockUnderCursor, SelectionType::Document];
                cur!(c).select(k[*kind as usize % 4]);
                Out::ok("")
            }
            InsertText { c, text } => unit(cur!(c).insert_text(text)),
            InsertFormatted { c, text, fmt } => unit(cur!(c).insert_formatted_text(text, &text_format(fmt))),
            InsertBlock { c } => unit(cur!(c).insert_block()),
            InsertHtml { c, text } => unit(cur!(c).insert_html(text)),
            InsertMarkdown { c, text } => unit(cur!(c).insert_markdown(text)),
            InsertPlainFragment { c, text } => unit(cur!(c).insert_fragment(&DocumentFragment::from_plain_text(text))),
            InsertImage { c, name, w, h } => unit(cur!(c).insert_image(name, *w, *h)),
            InsertFrame { c } => unit(cur!(c).insert_frame()),
            InsertTable { c, rows, cols } => Out::of(cur!(c).insert_table(*rows, *cols), |t| format!("{}x{}", t.rows(), t.columns())),
            InsertList { c, style } => unit(cur!(c).insert_list(STYLES[*style as usize % 8].clone())),
            CreateList { c, style } => unit(cur!(c).create_list(STYLES[*style as usize % 8].clone())),
            DeleteChar { c } => unit(cur!(c).delete_char()),
            DeletePrev { c } => unit(cur!(c).delete_previous_char()),
            RemoveSelected { c } => Out::of(cur!(c).remove_selected_text(), |s| s),
            Copy { c } => {
                let f = cur!(c).selection();
                let v = f.to_plain_text().to_string();
                self.clip = f;
                Out::ok(v)
            }
            Paste { c } => {
                if self.clip.is_empty() {
                    return Out::skip();
                }
                unit(cur!(c).insert_fragment(&self.clip))
            }
            SetCharFormat { c, fmt } => unit(cur!(c).set_char_format(&text_format(fmt))),
            MergeCharFormat { c, fmt } => unit(cur!(c).merge_char_format(&text_format(fmt))),
            SetBlockFormat { c, heading, align, indent } => {
                let al = align.map(|a| [Alignment::Left, Alignment::Right, Alignment::Center, Alignment::Justify][a as usize % 4].clone());
                unit(cur!(c).set_block_format(&BlockFormat { heading_level: *heading, alignment: al, indent: *indent, ..Default::default() }))
            }
            SetFrameFormat { c, frame, w } => {
                let fs = frames(doc!());
                if fs.is_empty() {
                    return Out::skip();
                }
                let id = fs[*frame % fs.len()].id();
                unit(cur!(c).set_frame_format(id, &FrameFormat { width: Some(*w), ..Default::default() }))
            }
            SetListFormat { c, style, indent } => {
                unit(cur!(c).set_current_list_format(&ListFormat { style: Some(STYLES[*style as usize % 8].clone()), indent: Some(*indent), ..Default::default() }))
            }
            AddToList { c } => {
                let ls = lists(doc!());
                if ls.is_empty() {
                    return Out::skip();
                }
                unit(cur!(c).add_current_block_to_list(ls[0].id()))
            }
            RemoveFromList { c } => unit(cur!(c).remove_current_block_from_list()),
            RemoveListItem { c, index } => {
                let ls = lists(doc!());
                if ls.is_empty() {
                    return Out::skip();
                }
                unit(cur!(c).remove_list_item(ls[0].id(), *index))
            }
            IntoCell { c, table, row, col } => {
                let ts = tables(doc!());
                if ts.is_empty() {
                    return Out::skip();
                }
                let t = &ts[*table % ts.len()];
                let (r, k) = (t.rows().max(1), t.columns().max(1));
                match t.cell(*row % r, *col % k).and_then(|x| x.blocks().first().map(|b| b.position())) {
                    Some(p) => {
                        cur!(c).set_position(p, MoveMode::MoveAnchor);
                        Out::ok("")
                    }
                    None => Out::skip(),
                }
            }
            RowAbove { c } => unit(cur!(c).insert_row_above()),
            RowBelow { c } => unit(cur!(c).insert_row_below()),
            ColBefore { c } => unit(cur!(c).insert_column_before()),
            ColAfter { c } => unit(cur!(c).insert_column_after()),
            RemoveRow { c } => unit(cur!(c).remove_current_row()),
            RemoveCol { c } => unit(cur!(c).remove_current_column()),
            RemoveTable { c } => unit(cur!(c).remove_current_table()),
            MergeCells { c, table, r0, c0, r1, c1 } => {
                let ts = tables(doc!());
                if ts.is_empty() {
                    return Out::skip();
                }
                unit(cur!(c).merge_table_cells(ts[*table % ts.len()].id(), *r0, *c0, *r1, *c1))
            }
            TableRow { c, table, at, insert } | TableCol { c, table, at, insert } => {
                let ts = tables(doc!());
                if ts.is_empty() {
                    return Out::skip();
                }
                let id = ts[*table % ts.len()].id();
                unit(match (op, insert) {
                    (TableRow { .. }, true) => cur!(c).insert_table_row(id, *at),
                    (TableRow { .. }, false) => cur!(c).remove_table_row(id, *at),
                    (_, true) => cur!(c).insert_table_column(id, *at),
                    (_, false) => cur!(c).remove_table_column(id, *at),
                })
            }
            SplitCell { c, rows, cols } => unit(cur!(c).split_current_cell(*rows, *cols)),
            SelectCells { c, table, r0, c0, r1, c1 } => {
                let ts = tables(doc!());
                if ts.is_empty() {
                    return Out::skip();
                }
                cur!(c).select_cell_range(ts[*table % ts.len()].id(), *r0, *c0, *r1, *c1);
                Out::ok("")
            }
            SetTableFormat { c, border, align } => {
                let al = [Alignment::Left, Alignment::Right, Alignment::Center, Alignment::Justify][*align as usize % 4].clone();
                unit(cur!(c).set_current_table_format(&TableFormat { border: Some(*border), alignment: Some(al), ..Default::default() }))
            }
            SetCellFormat { c, padding, color } => {
                unit(cur!(c).set_current_cell_format(&CellFormat { padding: Some(*padding), background_color: Some(color.clone()), ..Default::default() }))
            }
            SetPlainText { text } => unit(doc!().set_plain_text(text)),
            Clear => unit(doc!().clear()),
            Replace { query, with, all, case, regex } => Out::of(
                doc!().replace_text(query, with, *all, &FindOptions { case_sensitive: *case, use_regex: *regex, ..Default::default() }),
                |n| n.to_string(),
            ),
            AddResource { name, data } => unit(doc!().add_resource(ResourceType::Image, name, "image/png", data)),
            SetTitle { text } => unit(doc!().set_title(text)),
            SetDirection { rtl } => unit(doc!().set_text_direction(if *rtl { TextDirection::RightToLeft } else { TextDirection::LeftToRight })),
            SetWrap { w } => unit(doc!().set_default_wrap_mode([WrapMode::NoWrap, WrapMode::WordWrap, WrapMode::WrapAnywhere, WrapMode::WrapAtWordBoundaryOrAnywhere][*w as usize % 4].clone())),
            SetModified { on } => {
                doc!().set_modified(*on);
                Out::ok("")
            }
            Undo => unit(doc!().undo()),
            Redo => unit(doc!().redo()),
            ClearUndo => {
                doc!().clear_undo_redo();
                Out::ok("")
            }
            BeginEdit { c } => {
                cur!(c).begin_edit_block();
                Out::ok("")
            }
            EndEdit { c } => {
                cur!(c).end_edit_block();
                Out::ok("")
            }
            ReadText => Out::of(doc!().to_plain_text(), |s| s),
            ReadStats => Out::ok(format!("{:?}", doc!().stats())),
            ReadTextAt { pos, len } => Out::of(doc!().text_at(*pos, *len), |s| s),
            ReadFlow => Out::ok(format!("{:?}", doc!().snapshot_flow())),
            ReadBlocks => Out::ok(doc!().blocks().iter().map(|b| format!("{}:{};", b.id(), b.position())).collect::<String>()),
            ReadFind { query } => Out::of(doc!().find_all(query, &FindOptions { case_sensitive: true, ..Default::default() }), |v| format!("{v:?}")),
            ReadBlockAt { pos } => Out::of(doc!().block_at(*pos), |b| format!("{b:?}")),
            ReadHtml => Out::of(doc!().to_html(), |s| s),
            ReadMarkdown => Out::of(doc!().to_markdown(), |s| s),
            ReadLatex => Out::of(doc!().to_latex("article", false), |s| s),
            ReadCursor { c } => {
                let k = cur!(c);
                Out::ok(format!("{},{}", k.position(), k.anchor()))
            }
            ReadSelected { c } => Out::of(cur!(c).selected_text(), |s| s),
            ReadResource { name } => Out::of(doc!().resource(name), |v| format!("{v:?}")),
            ReadFlags => Out::ok(format!("{} {} {}", doc!().can_undo(), doc!().can_redo(), doc!().is_modified())),
            ReadMisc { pos, len } => {
                let d = doc!();
                let fo = FindOptions::default();
                let a = (d.text_at(*pos, *len).ok(), d.find_element_at_position(*pos).map(|x| x.2), d.block_at(*pos).ok(), d.block_format_at(*pos).ok());
                let b = (d.snapshot_block_at_position(*pos), d.block_at_position(*pos).map(|b| b.position()), d.block_by_number(*pos).map(|b| b.text()));
                let c = (d.blocks_in_range(*pos, *len).len(), d.find("o", *pos, &fo).ok(), d.find_all("foo", &fo).ok());
                let e = (d.title(), d.text_direction(), d.default_wrap_mode(), d.is_empty(), d.flow().len());
                Out::ok(format!("{a:?} {b:?} {c:?} {e:?}"))
            }
            ReadCursorAll { c } => {
                let k = cur!(c);
                let a = (k.position(), k.anchor(), k.has_selection(), k.selection_start(), k.selection_end(), k.selected_text().ok());
                let b = (k.at_block_start(), k.at_block_end(), k.at_start(), k.at_end(), k.block_number(), k.position_in_block());
                let e = (k.char_format().ok(), k.block_format().ok(), k.current_list().map(|l| l.count()), k.selection().to_html());
                let f = (k.current_table().is_some(), k.current_table_cell().is_some(), k.is_cell_selection(), k.selected_cells().len());
                Out::ok(format!("{a:?} {b:?} {e:?} {f:?}"))
            }
            Keep { n } => {
                let b = doc!().blocks();
                if let Some(b) = b.get(*n % b.len().max(1)) {
                    self.kept_lists.extend(b.list());
                    self.kept.push(b.clone());
                }
                Out::ok("")
            }
            ReadKept => {
                let mut s = String::new();
                for b in &self.kept {
                    let x = (b.text(), b.length(), b.is_empty(), b.is_valid(), b.position(), b.block_number(), b.next().is_some(), b.previous().is_some());
                    let y = (b.frame().flow().len(), b.table_cell().is_some(), b.block_format(), b.char_format_at(1), b.fragments().len(), b.list().is_some(), b.list_item_index());
                    s += &format!("{x:?} {y:?} {};", b.snapshot().length);
                }
                for l in &self.kept_lists {
                    let x = (l.style(), l.indent(), l.prefix(), l.suffix(), l.count(), l.item(0).is_some(), l.item(7).is_some(), l.format(), l.item_marker(1));
                    s += &format!("{x:?};");
                }
                Out::ok(s)
            }
            ClearCellSelection { c } => {
                cur!(c).clear_cell_selection();
                cur!(c).clear_selection();
                Out::ok("")
            }
            NewCursor { frac } => {
                let d = doc!();
                let n = d.character_count() + d.block_count();
                let c = d.cursor_at((n as u64 * *frac as u64 / 65536) as usize);
                self.cursors.push(Some(c));
                Out::ok("")
            }
            CloneCursor { c } => {
                let k = cur!(c).clone();
                self.cursors.push(Some(k));
                Out::ok("")
            }
            DropCursor { c } => {
                let n = self.cursors.len();
                if n > 1 {
                    self.cursors.remove(*c % n);
                }
                Out::ok("")
            }
            CloneDoc => {
                let d = doc!().clone();
                self.spare.push(d);
                Out::ok("")
            }
            DropDoc => {
                self.spare.pop();
                Out::ok("")
            }
            Poll => Out::ok(crate::dump::events(&doc!().poll_events())),
            Unsubscribe { s } => {
                let n = self.subs.len();
                if n > 0 {
                    self.subs[*s % n] = None;
                }
                Out::ok("")
            }
            Rehighlight => {
                doc!().rehighlight();
                Out::ok("")
            }
            RehighlightBlock { n } => {
                let d = doc!();
                let b = d.blocks();
                if let Some(b) = b.get(*n % b.len().max(1)) {
                    d.rehighlight_block(b.id())
                }
                Out::ok("")
            }
            SetHighlighter { kind } => {
                doc!().set_syntax_highlighter(crate::highlight::make(*kind));
                Out::ok("")
            }
            StartMarkdown { text } => match doc!().set_markdown(text) {
                Ok(o) => self.push_op(LongOp::Md(o)),
                Err(e) => self.no_op(e),
            },
            StartHtml { text } => match doc!().set_html(text) {
                Ok(o) => self.push_op(LongOp::Html(o)),
                Err(e) => self.no_op(e),
            },
            StartDocx { path } => match doc!().to_docx(path) {
                Ok(o) => self.push_op(LongOp::Docx(o)),
                Err(e) => self.no_op(e),
            },
            OpWait { o } => match self.take_op(*o) {
                Some(x) => Out::of(x.wait(), |s| s),
                None => Out::skip(),
            },
            OpWaitTimeout { o, ms } => match self.take_op(*o) {
                Some(x) => match x.wait_timeout(Duration::from_millis(*ms)) {
                    Some(r) => Out::of(r, |s| s),
                    None => Out::ok("timeout"),
                },
                None => Out::skip(),
            },
            OpTry { o } => match self.op(*o) {
                Some(x) => match x.try_result() {
                    Some(r) => Out::of(r, |s| s),
                    None => Out::ok("running"),
                },
                None => Out::skip(),
            },
            OpProgress { o } => match self.op(*o) {
                Some(x) => Out::ok(match x.progress() {
                    Some((p, _)) => format!("{p:.1}"),
                    None => "none".into(),
                }),
                None => Out::skip(),
            },
            OpIsDone { o } => match self.op(*o) {
                Some(x) => Out::ok(x.is_done().to_string()),
                None => Out::skip(),
            },
            OpCancel { o } => match self.op(*o) {
                Some(x) => {
                    x.cancel();
                    Out::ok("")
                }
                None => Out::skip(),
            },
            OpDrop { o } => {
                self.take_op(*o);
                Out::ok("")
            }
            Sleep { ms } => {
                std::thread::sleep(Duration::from_millis(*ms));
                Out::ok("")
            }
            WallJump { ms } => {
                crate::sim::wall_jump(*ms * 1_000_000);
                Out::ok("")
            }
            PutFile { .. } | Cli { .. } => Out::skip(),
            DiskFaults { d } => {
                crate::sim::disk_faults(d);
                Out::ok("")
            }
            Subscribe { .. } | Check => Out::skip(),
        }
    }
    fn push_op(&mut self, o: LongOp) -> Out {
        let id = o.id();
        self.ops.push(Some(o));
        self.op_ids.push(id);
        Out::ok("started")
    }
    fn no_op(&mut self, e: impl std::fmt::Display) -> Out {
        self.ops.push(None);
        self.op_ids.push(String::new());
        Out::err(e)
    }
    pub fn op(&mut self, o: usize) -> Option<&mut LongOp> {
        let n = self.ops.len();
        if n == 0 { None } else { self.ops[o % n].as_mut() }
    }
    pub fn take_op(&mut self, o: usize) -> Option<LongOp> {
        let n = self.ops.len();
        if n == 0 { None } else { self.ops[o % n].take() }
    }
}
