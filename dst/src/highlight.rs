//! Highlighters used as test doubles for user code.
use std::sync::Arc;
use text_document::*;

/// Kind 1: colours every maximal run of ASCII letters. Kind 2: `/*` … `*/`
/// comments spanning blocks (block state cascade). Kind 3: underlines every
/// second character, shifts state by one each block.
pub struct H(pub u8);
impl SyntaxHighlighter for H {
    fn highlight_block(&self, text: &str, ctx: &mut HighlightContext) {
        let (spans, st) = spans(self.0, text, ctx.previous_block_state());
        for (a, n, f) in spans {
            ctx.set_format(a, n, f);
        }
        ctx.set_current_block_state(st);
    }
}
pub fn make(kind: u8) -> Option<Arc<dyn SyntaxHighlighter>> {
    if kind == 0 { None } else { Some(Arc::new(H(kind))) }
}
/// The pure function every highlighter above computes.
pub fn spans(kind: u8, text: &str, prev: i64) -> (Vec<(usize, usize, HighlightFormat)>, i64) {
    if kind > 3 {
        // The same with formats nothing but a highlighter sets, overlapping in kind 6.
        let (mut v, st) = spans(kind - 3, text, prev);
        let n = text.chars().count();
        for (i, x) in v.iter_mut().enumerate() {
            x.2 = HighlightFormat { foreground_color: Some(Color::rgb(kind, st as u8, 3)), ..Default::default() };
            match kind {
                5 => x.2.tooltip = Some("comment".into()),
                6 => x.2.underline_color = Some(Color::rgb(i as u8 % 3, 0, 0)),
                _ => {}
            }
        }
        if kind == 6 {
            v.insert(0, (0, n, HighlightFormat { background_color: Some(Color::rgb(7, st as u8, 7)), foreground_color: Some(Color::rgb(8, 8, 8)), ..Default::default() }));
            v.push((n / 2, n, HighlightFormat { tooltip: Some("tail".into()), ..Default::default() }));
        }
        return (v, st);
    }
    let ch: Vec<char> = text.chars().collect();
    let mut v = vec![];
    match kind {
        1 => {
            let f = HighlightFormat { foreground_color: Some(Color::rgb(1, 2, 3)), ..Default::default() };
            let mut i = 0;
            while i < ch.len() {
                if ch[i].is_ascii_alphabetic() {
                    let s = i;
                    while i < ch.len() && ch[i].is_ascii_alphabetic() {
                        i += 1
                    }
                    v.push((s, i - s, f.clone()));
                } else {
                    i += 1
                }
            }
            (v, -1)
        }
        2 => {
            let f = HighlightFormat { font_italic: Some(true), background_color: Some(Color::rgb(9, 9, 9)), ..Default::default() };
            let mut inside = prev == 1;
            let mut i = 0;
            let mut start = 0;
            while i < ch.len() {
                if !inside && ch[i] == '/' && ch.get(i + 1) == Some(&'*') {
                    inside = true;
                    start = i;
                    i += 2;
                } else if inside && ch[i] == '*' && ch.get(i + 1) == Some(&'/') {
                    i += 2;
                    v.push((start, i - start, f.clone()));
                    inside = false;
                } else {
                    i += 1
                }
            }
            if inside {
                v.push((start, ch.len() - start, f.clone()));
            }
            (v, inside as i64)
        }
        _ => {
            let st = if prev < 0 { 0 } else { (prev + 1) % 5 };
            for i in (0..ch.len()).filter(|i| (*i as i64 + st) % 2 == 0) {
                v.push((i, 1, HighlightFormat { font_underline: Some(true), font_point_size: Some(10 + st as u32), ..Default::default() }));
            }
            (v, st)
        }
    }
}
