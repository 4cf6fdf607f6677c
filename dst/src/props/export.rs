//! An exported file is the whole document as it was when the export was requested, or the export fails.
use crate::dump;
use crate::exec::Client;
use crate::gen_ops::{self, Mix};
use crate::plan::{Op, Plan, Step};
use crate::rng::Rng;
use crate::run::{Check, count, flagged, log, spawn, viol};
use crate::sim::{self, Disk};
use std::time::Duration;
use text_document::*;

const OUT: &str = "/simdisk/out.docx";

/// Thread 0 holds rounds: edits, perhaps `DiskFaults`, `StartDocx`, then more edits until the next round.
pub fn generate(r: &mut Rng, p: &mut Plan) {
    let m = Mix { text: 8, rich: 3, format: 3, list: 2, moves: 4, replace: 1, history: 2, clip: 1, ..Default::default() };
    p.setup = gen_ops::origin(r, 5);
    let rounds = r.range(1, 3);
    let mut v: Vec<Step> = vec![];
    for _ in 0..rounds {
        let n = r.range(0, 5);
        v.extend(gen_ops::steps(r, &m, 2, n));
        if r.chance(2, 3) {
            let mut d = Disk { seed: r.next(), ..Default::default() };
            for _ in 0..r.range(1, 2) {
                match r.below(7) {
                    0 => d.open_err = *r.pick(&[2, 13, 28, 24]),
                    1 | 2 => d.fail_after_bytes = *r.pick(&[0, 1, 191, 700, 4000, 7000, 20_000]) + r.below(300) as i64,
                    3 => d.write_err = *r.pick(&[5, 28]),
                    4 => d.short_writes = 1,
                    5 => d.eintr_every = r.range(2, 5) as u64,
                    _ => d.latency_ns = *r.pick(&[1000, 5_000_000]),
                }
            }
            if d.write_err != 0 && d.fail_after_bytes < 0 {
                d.fail_after_bytes = r.below(9000) as i64;
            }
            v.push(Op::DiskFaults { d }.into());
        }
        v.push(Op::StartDocx { path: if r.chance(1, 12) { "/simdisk/none/out.docx".into() } else { OUT.into() } }.into());
        for _ in 0..r.range(0, 4) {
            v.push(
                match r.below(8) {
                    0 => Op::OpCancel { o: 0 },
                    1 => Op::Sleep { ms: *r.pick(&[0, 1, 60]) },
                    2 => Op::StartMarkdown { text: gen_ops::markdown(r, false) },
                    _ => gen_ops::op(r, &m, 2),
                }
                .into(),
            );
        }
    }
    p.threads = vec![v];
    // What the others do during each export.
    for _ in 0..r.below(3) {
        let n = r.range(1, 4);
        p.threads.push((0..n).map(|_| Step::from(if r.chance(1, 5) { Op::StartHtml { text: gen_ops::html(r, false) } } else { gen_ops::op(r, &m, 1) })).collect());
    }
    super::concurrent_sched(r, &mut p.sched, 20_000);
}
/// The archive without its timestamps and without paragraph ids, which concurrent
/// exports draw from one counter of the docx library (and thus without checksums).
fn archive(path: &str) -> Option<Vec<u8>> {
    let mut v = sim::disk_get(path)?;
    let mut i = 0;
    let le = |v: &[u8], at: usize, n: usize| (0..n).rev().fold(0usize, |a, k| a << 8 | v.get(at + k).copied().unwrap_or(0) as usize);
    while i + 46 <= v.len() {
        match v[i..i + 4] {
            [b'P', b'K', 3, 4] => {
                v[i + 10..i + 18].fill(0);
                i += 30 + le(&v, i + 18, 4) + le(&v, i + 26, 2) + le(&v, i + 28, 2);
            }
            [b'P', b'K', 1, 2] => {
                v[i + 12..i + 20].fill(0);
                i += 46 + le(&v, i + 28, 2) + le(&v, i + 30, 2) + le(&v, i + 32, 2);
            }
            _ => break,
        }
    }
    let id = b"paraId=\"";
    for i in 0..v.len().saturating_sub(id.len() + 8) {
        if v[i..].starts_with(id) {
            v[i + id.len()..i + id.len() + 8].fill(b'0');
        }
    }
    Some(v)
}
pub fn document_xml(path: &str) -> std::result::Result<String, String> {
    use std::io::Read;
    let v = sim::disk_get(path).ok_or("no file")?;
    let mut z = zip::ZipArchive::new(std::io::Cursor::new(v)).map_err(|e| e.to_string())?;
    let mut x = String::new();
    z.by_name("word/document.xml").map_err(|e| e.to_string())?.read_to_string(&mut x).map_err(|e| e.to_string())?;
    Ok(x)
}
/// The document the file contains: its paragraphs, or why it contains none.
pub fn decoded(path: &str) -> std::result::Result<Vec<String>, String> {
    let x = document_xml(path)?;
    let mut out = vec![];
    let mut rest = &x[..];
    while let Some(a) = rest.find("<w:p ") {
        let b = rest[a..].find("</w:p>").ok_or("unclosed paragraph")? + a;
        let (p, mut line) = (&rest[a..b], String::new());
        if let Some(h) = p.find("<w:pStyle w:val=\"") {
            line += p[h + 17..].split('"').next().unwrap();
            line.push(' ');
        }
        let mut last = None;
        for r in p.split("<w:r>").skip(1) {
            let r = r.split("</w:r>").next().unwrap();
            let f: String = [("<w:b ", 'b'), ("<w:i ", 'i'), ("<w:u ", 'u'), ("<w:strike", 's')].iter().filter(|t| r.contains(t.0)).map(|t| t.1).collect();
            for t in r.split("<w:t").skip(1) {
                let t = t.split_once('>').map(|t| t.1.split("</w:t>").next().unwrap()).unwrap_or("");
                piece(&mut line, &mut last, f.clone(), &t.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&apos;", "'").replace("&#39;", "'").replace("&amp;", "&"));
            }
        }
        out.push(line);
        rest = &rest[b..];
    }
    Ok(out)
}
fn piece(line: &mut String, last: &mut Option<String>, f: String, t: &str) {
    if t.is_empty() {
        return;
    }
    if last.as_ref() != Some(&f) {
        *line += &format!("[{f}]");
        *last = Some(f);
    }
    *line += t;
}
/// The same of the document.
pub fn expected(doc: &TextDocument) -> Vec<String> {
    let w = super::consistency::walk(doc);
    let mut out = vec![];
    for b in &w.blocks {
        let mut line = match b.block_format.heading_level {
            Some(l) => format!("Heading{} ", l.clamp(1, 6)),
            _ => String::new(),
        };
        let mut last = None;
        for f in &b.fragments {
            if let FragmentContent::Text { text, format, .. } = f {
                let on = [(format.font_bold, 'b'), (format.font_italic, 'i'), (format.font_underline, 'u'), (format.font_strikeout, 's')];
                piece(&mut line, &mut last, on.iter().filter(|x| x.0 == Some(true)).map(|x| x.1).collect(), text);
            }
        }
        out.push(line);
    }
    out
}
fn io_faults() -> u64 {
    sim::counters().iter().filter(|c| c.0 == "io_errors").map(|c| c.1).sum()
}
fn export(doc: &TextDocument, path: &str) -> std::result::Result<DocxExportResult, String> {
    doc.to_docx(path).and_then(|o| o.wait()).map_err(|e| e.to_string())
}
fn paragraphs(doc: &TextDocument) -> usize {
    doc.block_count()
}
struct Running {
    op: Operation<DocxExportResult>,
    path: String,
    reference: Vec<u8>,
    content: Vec<String>,
    blocks: usize,
    old: Option<Vec<u8>>,
    faults: u64,
    cancelled: bool,
    may_fail: bool,
    others: Vec<std::thread::JoinHandle<()>>,
}
fn differ(a: &Option<Vec<u8>>, b: &Option<Vec<u8>>) -> String {
    let (Some(a), Some(b)) = (a, b) else { return String::new() };
    match a.iter().zip(b).position(|(x, y)| x != y) {
        None => String::new(),
        Some(i) => {
            let s = |v: &[u8]| String::from_utf8_lossy(&v[i.saturating_sub(20)..(i + 40).min(v.len())]).into_owned();
            format!(", first difference at byte {i}: {:?} / {:?}", s(a), s(b))
        }
    }
}
fn short(v: &Option<Vec<u8>>) -> String {
    match v {
        None => "no file".into(),
        Some(v) => format!("{} bytes", v.len()),
    }
}
fn finish(doc: &TextDocument, r: Running) -> Check {
    let out = r.op.wait().map_err(|e| e.to_string());
    for h in r.others {
        let _ = h.join();
    }
    sim::disk_faults(&Disk::default());
    if let Some(v) = flagged() {
        return Err(v);
    }
    let now = archive(&r.path);
    let faults = io_faults() - r.faults;
    log(|| format!("export to {} -> {out:?}, {}, {faults} disk errors", r.path, short(&now)));
    match &out {
        Ok(x) => {
            if now.as_ref() != Some(&r.reference) {
                return viol("export: reports success but the file is not the document as it was", format!("{} instead of {} bytes, {faults} disk errors{}", short(&now), r.reference.len(), differ(&now, &Some(r.reference.clone()))));
            }
            match decoded(&r.path) {
                Ok(d) if d == r.content => {}
                Ok(d) => return viol("export: the file contains another document", format!("{d:?} instead of {:?}", r.content)),
                Err(e) => return viol("export: the file cannot be read", e),
            }
            if x.file_path != r.path || x.paragraph_count != r.blocks {
                return viol("export: wrong result", format!("{x:?}, {} blocks", r.blocks));
            }
            count("exports_ok", 1);
        }
        Err(e) => {
            if !r.cancelled && !r.may_fail && faults == 0 {
                return viol("export: fails without a reason", e.clone());
            }
            if faults == 0 && now != r.old && now.as_ref() != Some(&r.reference) {
                return viol("export: a cancelled export leaves a damaged file", format!("{e}: {} instead of {}", short(&now), short(&r.old)));
            }
            count("exports_failed", 1);
        }
    }
    sim::quiesce();
    // The disk works again: so does exporting.
    match export(doc, "/simdisk/again.docx") {
        Err(e) => return viol("export: fails after the disk has recovered", e),
        Ok(_) => {
            let want = archive("/simdisk/again.docx");
            match export(doc, OUT) {
                Ok(_) if archive(OUT) == want => {}
                Ok(_) => return viol("export: an existing file is not replaced properly", format!("{} instead of {}{}", short(&archive(OUT)), short(&want), differ(&archive(OUT), &want))),
                Err(e) => return viol("export: fails after the disk has recovered", e),
            }
        }
    }
    Ok(())
}
pub fn run(plan: &'static Plan) -> Check {
    let doc = TextDocument::new();
    let mut c = Client::new(doc.clone(), 2);
    for s in &plan.setup {
        c.exec(&s.op);
    }
    let mut running: Option<Running> = None;
    let mut pending: Option<Disk> = None;
    for s in &plan.threads[0] {
        match &s.op {
            Op::DiskFaults { d } => pending = Some(d.clone()),
            Op::StartDocx { path } => {
                if let Some(r) = running.take() {
                    finish(&doc, r)?;
                }
                sim::quiesce();
                let before = dump::content(&doc, &[]);
                if let Err(e) = export(&doc, "/simdisk/ref.docx") {
                    return viol("export: fails without a reason", e);
                }
                let reference = archive("/simdisk/ref.docx").unwrap_or_default();
                let blocks = paragraphs(&doc);
                if let Some((s, m)) = before.diff(&dump::content(&doc, &[])) {
                    return viol(format!("export: changes the document: {s}"), m);
                }
                let content = expected(&doc);
                let old = archive(path);
                let faults = io_faults();
                if let Some(d) = pending.take() {
                    sim::disk_faults(&d);
                }
                let may_fail = path != OUT;
                let op = match doc.to_docx(path) {
                    Ok(op) => op,
                    Err(e) => return viol("export: could not be started", e.to_string()),
                };
                let others = (1..plan.threads.len())
                    .map(|t| {
                        let mut k = Client::new(doc.clone(), 1);
                        spawn(sim::ROLE_CLIENT, move || {
                            for s in &plan.threads[t] {
                                let o = k.exec(&s.op);
                                log(|| format!("T{t} {} -> {o:?}", serde_json::to_string(&s.op).unwrap()));
                            }
                        })
                    })
                    .collect();
                running = Some(Running { op, path: path.clone(), reference, content, blocks, old, faults, cancelled: false, may_fail, others });
            }
            Op::OpCancel { .. } => {
                if let Some(r) = running.as_mut() {
                    r.op.cancel();
                    r.cancelled = true;
                }
            }
            Op::Sleep { ms } => std::thread::sleep(Duration::from_millis(*ms)),
            o => {
                let x = c.exec(o);
                log(|| format!("T0 {} -> {x:?}", serde_json::to_string(o).unwrap()));
            }
        }
    }
    if let Some(r) = running.take() {
        finish(&doc, r)?;
    }
    Ok(())
}
