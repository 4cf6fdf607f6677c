//! The command line program: success means the output is what the library gives,
//! failure is reported, and no failure, crash or loss of power damages a text file.
use super::export;
use crate::gen_ops;
use crate::plan::{Op, Plan};
use crate::rng::Rng;
use crate::run::{Check, SimCell, count, finish, guarded, log, panic_viol, viol};
use crate::sim::{self, Disk};
use text_document::*;

const DIR: &str = "/simdisk/";

pub fn generate(r: &mut Rng, p: &mut Plan) {
    let tables = r.chance(1, 2);
    let input = DIR.to_string() + *r.pick(&["in.txt", "in.md", "in.html", "in.HTM", "in.markdown", "in"]);
    let mut data = match input.to_lowercase() {
        s if s.ends_with(".md") || s.ends_with("down") => gen_ops::markdown(r, tables),
        s if s.contains(".htm") => gen_ops::html(r, tables),
        _ => gen_ops::para(r, 5),
    };
    for _ in 0..r.below(4) {
        data = format!("{data}{}{}", r.pick(if tables { &["\n\n", " ", "\n"] } else { &[" ", "  ", " x "] }), gen_ops::line(r, 6));
    }
    let times = if r.chance(1, 6) { r.range(2, 100) } else { 1 };
    p.setup.push(Op::PutFile { path: input.clone(), data, times, bad: r.chance(1, 20) }.into());
    let s = |x: &str| x.to_string();
    let name = if r.chance(1, 25) { DIR.to_string() + "missing.txt" } else { input.clone() };
    let query = s(r.pick(&["foo", "a", "o", "bar", "l+", "aa", "[", "foo foo", "É", "日", "i", "two", "t", "\\w+"]));
    let mut args = vec![s("text-document")];
    let mut out = None;
    match r.below(10) {
        0..=2 => {
            let o = DIR.to_string() + *r.pick(&["out.txt", "out.md", "out.html", "out.tex", "out.latex", if tables { "out.html" } else { "out.docx" }, "none/out.txt", "in.txt"]);
            args.extend([s("convert"), name, o.clone()]);
            if r.chance(1, 3) {
                args.extend([s("--document-class"), s("book")]);
            }
            if r.chance(1, 3) {
                args.push(s("--preamble"));
            }
            out = Some(o);
        }
        3 => args.extend([s("stats"), name]),
        4 => args.extend([s("find"), name, query]),
        5..=8 => {
            args.extend([s("replace"), name, query, s(r.pick(&["", "X", "foo2", "longer text", "$0$0"]))]);
            if r.chance(1, 4) {
                let o = DIR.to_string() + *r.pick(&["out.txt", "out.md", "out.html"]);
                args.extend([s(r.pick(&["-o", "--output"])), o.clone()]);
                out = Some(o);
            }
        }
        _ => {
            args.extend([s("cat"), name]);
            if r.chance(3, 4) {
                args.extend([s("-f"), s(r.pick(&["plain", "markdown", "html", "latex"]))]);
            }
        }
    }
    if ["find", "replace"].contains(&&args[1][..]) {
        for f in ["-c", "-w", "-e"] {
            if r.chance(1, 4) {
                args.push(s(f));
            }
        }
    }
    match out {
        Some(o) if o != input && !o.contains("none") && r.chance(1, 2) => p.setup.push(Op::PutFile { path: o, data: gen_ops::para(r, 40), times: 1, bad: false }.into()),
        _ => {}
    }
    let mut v = vec![];
    if r.chance(3, 4) {
        let mut d = Disk { seed: r.next(), ..Default::default() };
        for _ in 0..r.range(1, 2) {
            match r.below(13) {
                0 => d.open_err = *r.pick(&[13, 28, 24, 30]),
                1 => d.open_read_err = *r.pick(&[5, 13, 24]),
                2 => d.fail_after_bytes = *r.pick(&[0, 1, 10, 100, 4000]) + r.below(50) as i64,
                3 => d.write_err = *r.pick(&[5, 28, 122]),
                4 => d.short_writes = 1,
                5 => d.eintr_every = r.range(2, 5) as u64,
                6 => d.rename_err = *r.pick(&[5, 13, 28]),
                7 => d.fsync_err = *r.pick(&[5, 28]),
                8 => d.read_fail_after = r.below(60) as i64,
                _ => {
                    d.crash_at = r.range(1, 12) as u64;
                    d.power = r.below(2) as i32;
                }
            }
        }
        if d.write_err != 0 && d.fail_after_bytes < 0 {
            d.fail_after_bytes = r.below(300) as i64;
        }
        v.push(Op::DiskFaults { d }.into());
    }
    v.push(Op::Cli { args }.into());
    p.threads = vec![v];
    super::concurrent_sched(r, &mut p.sched, 4000);
}

/// What the command has to do, by the library's public interface alone.
enum Want {
    /// Fail, for this reason.
    Fail(String),
    /// Print this.
    Print(String),
    /// Print lines starting like this and containing that.
    Lines(Vec<(String, String)>),
    /// Write this to the file.
    Write(String, String),
    /// Write a DOCX file with these paragraphs.
    Docx(String, Vec<String>),
    /// Change nothing.
    Nothing,
}
fn ext(path: &str) -> String {
    match path.rsplit('/').next().unwrap().rsplit_once('.') {
        Some((_, e)) => e.to_lowercase(),
        None => String::new(),
    }
}
fn load(path: &str) -> std::result::Result<TextDocument, String> {
    let b = sim::disk_get(path).ok_or("no file")?;
    let s = String::from_utf8(b).map_err(|e| e.to_string())?;
    let doc = TextDocument::new();
    let e = |e: anyhow::Error| e.to_string();
    match &ext(path)[..] {
        "md" | "markdown" => drop(doc.set_markdown(&s).map_err(e)?.wait().map_err(e)?),
        "html" | "htm" => drop(doc.set_html(&s).map_err(e)?.wait().map_err(e)?),
        "tex" | "latex" | "docx" => return Err("unsupported".into()),
        _ => doc.set_plain_text(&s).map_err(e)?,
    }
    Ok(doc)
}
fn want(a: &[String]) -> std::result::Result<Want, String> {
    let e = |e: anyhow::Error| e.to_string();
    let flag = |f: &str| a[3..].iter().any(|x| x == f);
    let value = |f: &str| a.iter().position(|x| x == f).map(|i| a[i + 1].clone());
    let opts = || FindOptions { case_sensitive: flag("-c"), whole_word: flag("-w"), use_regex: flag("-e"), search_backward: false };
    let doc = load(&a[2])?;
    let text = |kind: &str| match kind {
        "md" | "markdown" => doc.to_markdown().map_err(e),
        "html" | "htm" => doc.to_html().map_err(e),
        _ => doc.to_plain_text().map_err(e),
    };
    Ok(match &a[1][..] {
        "convert" => {
            let out = a[3].clone();
            if out[DIR.len()..].contains('/') {
                return Err("no directory".into());
            }
            match &ext(&out)[..] {
                "tex" | "latex" => {
                    let class = value("--document-class").unwrap_or("article".into());
                    let s = doc.to_latex(&class, flag("--preamble")).map_err(e)?;
                    Want::Write(out, s)
                }
                "docx" => Want::Docx(out, export::expected(&doc).into_iter().map(|l| l.replace('\n', "")).collect()),
                x => {
                    let s = text(x)?;
                    Want::Write(out, s)
                }
            }
        }
        "stats" => {
            let s = doc.stats();
            let n = [("File", a[2].clone()), ("Characters", s.character_count.to_string()), ("Words", s.word_count.to_string()), ("Blocks", s.block_count.to_string()), ("Frames", s.frame_count.to_string()), ("Images", s.image_count.to_string()), ("Lists", s.list_count.to_string()), ("Tables", s.table_count.to_string())];
            Want::Lines(n.into_iter().map(|(k, v)| (format!("{k}:"), v)).collect())
        }
        "find" => {
            let m = doc.find_all(&a[3], &opts()).map_err(e)?;
            let mut v = vec![];
            for m in m {
                let t = doc.text_at(m.position, m.length.min(150)).map_err(e)?;
                v.push((format!("{}:{} ", m.position, m.length), t.replace('\n', "\\n")));
            }
            Want::Lines(v)
        }
        "replace" => {
            let n = doc.replace_text(&a[3], &a[4], true, &opts()).map_err(e)?;
            if n == 0 {
                return Ok(Want::Nothing);
            }
            let out = value("-o").or(value("--output")).unwrap_or(a[2].clone());
            let s = text(&ext(&out))?;
            Want::Write(out, s)
        }
        _ => {
            let s = match value("-f").as_deref() {
                Some("latex") => doc.to_latex("article", false).map_err(e)?,
                f => text(match f {
                    Some("markdown") => "md",
                    Some("html") => "html",
                    _ => "",
                })?,
            };
            Want::Print(s)
        }
    })
}

struct Run {
    want: Want,
    before: Vec<(String, Vec<u8>)>,
    faults: bool,
    args: Vec<String>,
}
static RUN: SimCell<Option<Run>> = SimCell::new(None);
fn errors() -> u64 {
    sim::counters().iter().filter(|c| c.0 == "io_errors").map(|c| c.1).sum()
}
fn out(name: &str) -> String {
    String::from_utf8_lossy(&sim::disk_get(name).unwrap_or_default()).into_owned()
}
fn short(v: &Option<Vec<u8>>) -> String {
    match v {
        None => "no file".into(),
        Some(v) => format!("{} bytes {:?}", v.len(), String::from_utf8_lossy(&v[..v.len().min(80)])),
    }
}
extern "C" fn on_exit(code: i32) {
    sim::end_program();
    finish(verdict(code))
}
fn verdict(code: i32) -> Check {
    let r = RUN.get().as_ref().unwrap();
    let (stdout, stderr) = (out("/simdisk/.stdout"), out("/simdisk/.stderr"));
    log(|| format!("{:?} -> {code}, {} bytes printed, {stderr:?}", r.args, stdout.len()));
    count(match code {
        -1 => "programs_killed",
        0 => "programs_ok",
        _ => "programs_failed",
    }, 1);
    let failed = errors() > 0;
    if code > 0 {
        if stderr.trim().is_empty() {
            return viol("cli: fails without a message", format!("exit code {code}"));
        }
        if !failed && !matches!(r.want, Want::Fail(_)) {
            return viol("cli: fails without a reason", stderr);
        }
    }
    // Files: nothing but the output changes, and a text output is the old or the new one, whole.
    let target = match &r.want {
        Want::Write(p, _) | Want::Docx(p, _) => p.clone(),
        _ => String::new(),
    };
    for (p, b) in &r.before {
        let now = sim::disk_get(p);
        if *p != target && now.as_ref() != Some(b) {
            return viol("cli: changes a file it only reads", format!("{p}: {} instead of {} bytes", short(&now), b.len()));
        }
    }
    let old = r.before.iter().find(|x| x.0 == target).map(|x| x.1.clone());
    let now = sim::disk_get(&target);
    if let Want::Write(p, s) = &r.want {
        let new = Some(s.clone().into_bytes());
        let ok = match code {
            0 => now == new,
            -1 => now == old || now == new,
            _ => now == old,
        };
        if !ok {
            let how = match code {
                0 => "reports success but the output is not what the library gives",
                -1 => "a kill or loss of power leaves a damaged file",
                _ => "a failure damages the file it should write",
            };
            return viol(format!("cli: {how}"), format!("{p}: {} / old {} / new {}", short(&now), short(&old), short(&new)));
        }
    }
    if code != -1 {
        let mut known: Vec<&str> = r.before.iter().map(|x| &x.0[..]).collect();
        known.extend([&target[..], "/simdisk/.stdout", "/simdisk/.stderr"]);
        if let Some(x) = sim::disk_files().iter().find(|f| !known.contains(&&f[..])) {
            return viol("cli: leaves a file behind", x.clone());
        }
    }
    if code != 0 {
        return Ok(());
    }
    match &r.want {
        Want::Fail(why) if !r.faults => return viol("cli: reports success though it cannot have done it", why.clone()),
        Want::Print(s) if *s != stdout => return viol("cli: prints something else than the document", format!("{stdout:?} instead of {s:?}")),
        Want::Lines(v) => {
            let l: Vec<&str> = stdout.lines().collect();
            if l.len() != v.len() || !l.iter().zip(v).all(|(l, (a, b))| l.starts_with(&a[..]) && l.contains(&b[..]) && (!a.ends_with(':') || l[a.len()..].trim() == b)) {
                return viol("cli: prints something else than the library finds", format!("{stdout:?} instead of {v:?}"));
            }
        }
        Want::Docx(p, v) => match export::decoded(p) {
            Ok(d) if d == *v => {}
            Ok(d) => return viol("cli: the DOCX file contains another document", format!("{d:?} instead of {v:?}")),
            Err(e) => return viol("cli: the DOCX file cannot be read", e),
        },
        Want::Nothing if sim::disk_get(&r.args[2]).as_ref() != r.before.iter().find(|x| x.0 == r.args[2]).map(|x| &x.1) => return viol("cli: changes the file though nothing matches", ""),
        _ => {}
    }
    Ok(())
}
pub fn run(plan: &'static Plan) -> Check {
    let mut before = vec![];
    for s in &plan.setup {
        if let Op::PutFile { path, data, times, bad } = &s.op {
            let mut data = data.repeat(*times).into_bytes();
            if *bad {
                data.push(0xff);
            }
            sim::disk_put(path, &data);
            before.retain(|x: &(String, Vec<u8>)| x.0 != *path);
            before.push((path.clone(), data));
        }
    }
    let mut faults = None;
    for s in &plan.threads[0] {
        match &s.op {
            Op::DiskFaults { d } => faults = Some(d.clone()),
            Op::Cli { args } if args.len() >= 3 => {
                let w = want(args).unwrap_or_else(Want::Fail);
                sim::quiesce();
                *RUN.get() = Some(Run { want: w, before, faults: faults.is_some(), args: args.clone() });
                if let Some(d) = &faults {
                    sim::disk_faults(d);
                }
                let a: Vec<&str> = args.iter().map(|x| &x[..]).collect();
                sim::program(&a, on_exit);
                let r = guarded(|| {
                    let ok = dst_cli::run();
                    let _ = std::io::Write::flush(&mut std::io::stdout());
                    ok
                });
                sim::end_program();
                sim::disk_faults(&Disk::default());
                match r {
                    Err(m) => return Err(panic_viol(m)),
                    Ok(ok) => return verdict(if ok { 0 } else { 1 }),
                }
            }
            _ => {}
        }
    }
    Ok(())
}
