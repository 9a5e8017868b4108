//! C19: the command-line listing matches the file
use crate::cli;
use crate::engine::*;
use crate::generate::*;
use crate::refgif::*;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::fmt::Write;

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        level: "exploration",
        rule: "the built utility is run on 1..4 files: generated ones with any blocks (names with spaces, quotes, and \
               other characters; with and without log output), and truncated, damaged, missing and arbitrary ones; its \
               listing, without colours, is compared with a listing made from the file's model; non-trivial: a file \
               of 2 or more frames, or an undecodable one; distinct by files' bytes",
        assumptions: &[
            "columns are told apart by white space, not by their position",
            "the meaning of a row's columns is that of the header line the utility prints",
        ],
        quick: 36_000,
        thorough: 216_000,
        run,
        enum_n,
        enum_run,
        must: &[
            "good file",
            "broken file",
            "several files",
            "file given twice",
            "missing file",
            "arbitrary file",
            "comment",
            "repeat:n",
            "repeat:forever",
            "lct",
            "interlaced",
            "transparent",
            "disposal:reserved",
            "no table",
            "100 frames",
            "logging",
            "directory",
            "name outside UTF-8",
            "names after --",
        ],
    }
}

/// A file's expected listing
pub struct Want {
    pub version: String,
    pub frames: usize,
    pub repeat: Option<u16>,
    pub comments: Vec<String>,
    pub rows: Vec<Row>,
}

#[derive(Debug, PartialEq)]
pub struct Row {
    pub interlaced: bool,
    pub n: String,
    pub delay: String,
    pub disp: String,
    pub size: String,
    pub pos: String,
    pub colors: String,
    pub trans: String,
}

/// How control characters are shown is C30's matter
fn printable(s: &str) -> String {
    s.replace(|c: char| c.is_control() && c != '\t', "\u{FFFD}")
}

pub fn want(m: &[RBlock]) -> Want {
    let (pre, fr) = group(m);
    let mut comments = vec![];
    for c in &pre.comments {
        for s in c {
            for l in String::from_utf8_lossy(s).split('\n') {
                let l = l.trim();
                if !l.is_empty() {
                    comments.push(printable(l));
                }
            }
        }
    }
    let rows = fr
        .iter()
        .enumerate()
        .map(|(i, f)| Row {
            interlaced: f.flags & 0x40 != 0,
            n: i.to_string(),
            delay: format!("{}.{:02}", f.delay() / 100, f.delay() % 100),
            disp: match f.gce {
                None => "-",
                Some((flags, ..)) => ["none", "keep", "bg", "prev", "res", "res", "res", "res"][(flags >> 2 & 7) as usize],
            }
            .to_string(),
            size: format!("{}x{}", f.w, f.h),
            pos: format!("{},{}", f.l, f.t),
            colors: match &f.lct {
                Some(c) => format!("{}", c.len() / 3),
                None => format!("{}g", pre.gct.as_ref().map(|c| c.len() / 3).unwrap_or(0)),
            },
            trans: f.trans().map(|t| t.to_string()).unwrap_or("-".into()),
        })
        .collect();
    Want {
        version: String::from_utf8(pre.version.to_vec()).unwrap(),
        frames: fr.len(),
        repeat: pre.looping.map(|l| l.1),
        comments,
        rows,
    }
}

/// Compare the listing of one file; returns the lines after it
pub fn compare<'a>(mut lines: &'a [String], path: &str, w: &Want) -> Result<&'a [String], String> {
    let mut next = || -> Result<&'a String, String> {
        let (l, rest) = lines.split_first().ok_or("listing ends early")?;
        lines = rest;
        Ok(l)
    };
    let l = next()?;
    if !l.contains(path) {
        return Err(format!("line {l:?} does not name {path}"));
    }
    let l = next()?;
    let mut head = format!("GIF{}, frames: {}", w.version, w.frames);
    match w.repeat {
        Some(0) => head += ", repeat: ∞",
        Some(n) => write!(head, ", repeat: {n}").unwrap(),
        None => {}
    }
    let Some(rest) = l.trim_start().strip_prefix(&head) else {
        return Err(format!("line {l:?} instead of {head:?}"));
    };
    // comments follow on the same line
    let mut rest = rest.to_string();
    for (i, c) in w.comments.iter().enumerate() {
        if i > 0 || rest.trim().is_empty() {
            rest = next()?.to_string();
        }
        match rest.trim_start().strip_prefix('#') {
            Some(g) if printable(g.trim()) == *c => {}
            _ => return Err(format!("comment {i}: {rest:?} instead of {c:?}")),
        }
    }
    if w.comments.is_empty() && !rest.trim().is_empty() {
        return Err(format!("{rest:?} after {head:?}"));
    }
    let l = next()?;
    let cols: Vec<&str> = l.split_whitespace().collect();
    if cols != ["Fr#", "Delay", "Disp", "Size", "X,Y", "Clrs", "Trn"] {
        return Err(format!("column headers {l:?}"));
    }
    for (i, r) in w.rows.iter().enumerate() {
        let l = next()?;
        let interlaced = l.starts_with('i');
        let c: Vec<&str> = l.strip_prefix('i').unwrap_or(l).split_whitespace().collect();
        if c.len() != 7 {
            return Err(format!("row {i}: {l:?}"));
        }
        let c = c.iter().map(|s| s.to_string()).collect::<Vec<_>>();
        let got = Row {
            interlaced,
            n: c[0].clone(),
            delay: c[1].clone(),
            disp: c[2].clone(),
            size: c[3].clone(),
            pos: c[4].clone(),
            colors: c[5].clone(),
            trans: c[6].clone(),
        };
        if got != *r {
            return Err(format!("row {i} is {got:?} instead of {r:?}"));
        }
    }
    Ok(lines)
}

enum File {
    Good(Vec<RBlock>),
    Broken(Vec<u8>),
    Wild(Vec<u8>),
    Missing,
    Directory,
}

/// Comments a terminal can show
pub fn readable(m: &mut [RBlock]) {
    for b in m {
        if let RBlock::Comment(s) = b {
            for x in s.iter_mut().flatten() {
                if *x == 0x1B {
                    *x = b'\n';
                }
            }
        }
    }
}

fn good(cx: &mut Cx) -> Vec<RBlock> {
    let mut o = GifOpts::blocks();
    o.frames = (1, if cx.t.chance(1, 4) { 9 } else { 3 });
    o.area = 400;
    o.late_meta = false;
    let mut m = gif(cx.t, &o);
    if cx.t.chance(1, 3) {
        // readable comments of several lines
        let n = cx.t.usize(1, 3);
        let at = if let RBlock::Gct(_) = m[2] { 3 } else { 2 };
        let words = ["one", "two  words", " spaces ", "\n", "#", "ünï", "\r\n", "\n\n", "x\ty", "i"];
        for _ in 0..n {
            let k = cx.t.usize(1, 5);
            let s: String = (0..k).map(|_| cx.t.pick(&words)).collect();
            m.insert(at, RBlock::Comment(vec![s.into_bytes()]));
        }
    }
    readable(&mut m);
    m
}

fn run(cx: &mut Cx) -> R {
    let n = if cx.t.chance(2, 3) { 1 } else { cx.t.usize(2, 4) };
    let mut files = vec![];
    for _ in 0..n {
        files.push(match cx.t.weighted(&[8, 2, 2, 1]) {
            0 => File::Good(good(cx)),
            1 => {
                let (mut b, ends) = write(&good(cx));
                let k = match cx.t.draw(4) {
                    0 => cx.t.usize(0, b.len() - 1),
                    1 => cx.t.pick(&ends).min(b.len() - 1),
                    2 => b.len() - 1,
                    3 => {
                        b[cx.t.usize(0, 4)] ^= 0x20;
                        b.len()
                    }
                    _ => {
                        // an unknown block at the end
                        let k = b.len() - 1;
                        b[k] = 0x3C;
                        b.len()
                    }
                };
                b.truncate(k);
                File::Broken(b)
            }
            2 => File::Wild(wild(cx.t).0),
            _ if cx.t.flag() => File::Directory,
            _ => File::Missing,
        });
    }
    let log = if cx.t.chance(1, 8) { Some("debug") } else { None };
    check(cx, &files, log)
}

fn check(cx: &mut Cx, files: &[File], log: Option<&str>) -> R {
    let dir = cli::Scratch::new();
    let stems = ["a", "two words", "q\"uote", "ünïcode", "b.c", "a'b", "back\\slash"];
    let mut args = vec![];
    let mut all = vec![];
    let outside = cx.t.chance(1, 10);
    cx.class_if(outside, "name outside UTF-8");
    // after "--" there are only file names
    let dashes = cx.t.chance(1, 8);
    cx.class_if(dashes, "names after --");
    for (i, f) in files.iter().enumerate() {
        let mut name = OsString::from(format!("{}{i}.gif", stems[cx.t.usize(0, stems.len() - 1)]));
        if dashes && cx.t.flag() {
            // (nothing is named twice)
            let odd = ["-x", "--", "help", "--help"];
            name = odd[i % 4].into();
        }
        if outside {
            name.push(OsString::from_vec(vec![0xFF, b'x', 0xC3]));
        }
        let path = if cx.t.flag() { name.clone() } else { dir.path().join(&name).into_os_string() };
        let bytes = match f {
            File::Good(m) => {
                cx.class("good file");
                classify(cx, m);
                let w = want(m);
                cx.class_if(w.repeat == Some(0), "repeat:forever");
                cx.class_if(w.repeat.is_some_and(|n| n > 0), "repeat:n");
                cx.class_if(w.rows.iter().any(|r| r.colors == "0g"), "no table");
                cx.class_if(w.frames > 100, "100 frames");
                cx.nontrivial(w.frames >= 2);
                write(m).0
            }
            File::Broken(b) => {
                cx.class("broken file");
                cx.nontrivial(true);
                b.clone()
            }
            File::Wild(b) => {
                cx.class("arbitrary file");
                b.clone()
            }
            File::Missing => {
                cx.class("missing file");
                args.push(path);
                continue;
            }
            File::Directory => {
                cx.class("directory");
                std::fs::create_dir(dir.path().join(&name)).map_err(|e| format!("HARNESS: {e}"))?;
                args.push(path);
                continue;
            }
        };
        std::fs::write(dir.path().join(&name), &bytes).map_err(|e| format!("HARNESS: {e}"))?;
        all.extend(&bytes);
        args.push(path);
    }
    // the same file twice
    let mut files: Vec<&File> = files.iter().collect();
    if cx.t.chance(1, 10) {
        let i = cx.t.usize(0, files.len() - 1);
        files.push(files[i]);
        args.push(args[i].clone());
        cx.class("file given twice");
    }
    cx.class_if(files.len() > 1, "several files");
    cx.class_if(log.is_some(), "logging");
    cx.key(&all);
    cx.info.input = Some(all);
    cx.exec();
    let mut line = args.clone();
    if dashes {
        line.insert(0, "--".into());
    }
    let o = cli::run(&line, dir.path(), log)?;
    let text = cli::plain(&o.stdout);
    cx.sample(|| format!("{args:?}: exit {:?}, {} lines, {:?}", o.code, text.lines().count(), o.stderr.lines().last()));
    if o.stderr.contains("panicked at") || o.code == Some(101) || o.code.is_none() {
        return Err(format!("crash: exit {:?}: {}", o.code, tail(&o.stderr)));
    }
    let sure_bad = files.iter().any(|f| matches!(f, File::Broken(_) | File::Missing | File::Directory));
    let sure_good = files.iter().all(|f| matches!(f, File::Good(_)));
    if sure_bad && o.code == Some(0) {
        return Err("exit 0 for an undecodable file".into());
    }
    if sure_good && o.code != Some(0) {
        return Err(format!("exit {:?} for decodable files: {}", o.code, tail(&o.stderr)));
    }
    if o.code != Some(0) && !o.stderr.lines().any(|l| !l.starts_with('[') && !l.trim().is_empty()) {
        return Err("failure without an error message".into());
    }
    // good files, up to the first which is not
    let lines: Vec<String> = text.split('\n').map(|l| l.to_string()).collect();
    let mut rest = &lines[..];
    for (f, a) in files.iter().zip(&args) {
        let File::Good(m) = f else { break };
        let path = format!("{a:?}");
        let path = path.trim_matches('"');
        rest = compare(rest, path, &want(m)).map_err(|e| format!("{e}\n{text}"))?;
    }
    if sure_good && rest.iter().any(|l| !l.trim().is_empty()) {
        return Err(format!("more lines than expected: {rest:?}"));
    }
    // a listing which cannot be written is a failure
    if cx.t.chance(1, 12)
        && let Some(out) = cli::failing_output(cx.t.flag())
        && !text.trim().is_empty()
    {
        cx.class("failing output");
        cx.exec();
        let o = cli::run_into(&line, dir.path(), log, out)?;
        if o.stderr.contains("panicked at") || o.code == Some(101) || o.code.is_none() {
            return Err(format!("crash when the listing cannot be written: exit {:?}: {}", o.code, tail(&o.stderr)));
        }
        if o.code == Some(0) {
            return Err("exit 0 when the listing cannot be written".into());
        }
    }
    Ok(())
}

pub fn tail(s: &str) -> String {
    let n = s.len().saturating_sub(400);
    let n = (n..s.len()).find(|i| s.is_char_boundary(*i)).unwrap_or(0);
    s[n..].to_string()
}

/// Enumerated: values at the edges of their columns, many frames
fn enum_n(_: Tier) -> u64 {
    24 + BIG
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    if i >= 24 {
        let mut r = cx.t.bulk();
        let mut m = big(i - 24, &mut r);
        readable(&mut m);
        cx.class("large file");
        return check(cx, &[File::Good(m)], None);
    }
    let delays = [0u16, 1, 9, 10, 99, 100, 101, 255, 256, 999, 1000, 9999, 10000, 12345, 32768, 65535];
    let mut m = vec![
        RBlock::Header(if i % 2 == 0 { *b"87a" } else { *b"89a" }),
        RBlock::Screen { w: [1, 65535][(i % 2) as usize], h: [1, 300, 65535][(i % 3) as usize], flags: 0x80 | i as u8 & 7, bg: 0, aspect: 0 },
        RBlock::Gct(vec![5; 3 * table_len(0x80 | i as u8 & 7)]),
        RBlock::App(vec![b"ANIMEXTS1.0".to_vec(), vec![1, [0, 1, 255, 0][(i % 4) as usize], [0, 0, 255, 1][(i % 4) as usize]]]),
    ];
    let n = if i < 16 { 16 } else { [99u64, 100, 101, 999, 1000, 1001, 300, 10][(i - 16) as usize] };
    for k in 0..n {
        let d = delays[((k + i) % 16) as usize];
        if k % 5 != 4 {
            m.push(RBlock::Gce { flags: ((k % 8) << 2) as u8 | (k % 3 == 0) as u8, delay: d, tidx: (k * 17) as u8 });
        }
        let lct = k % 4 == 1;
        let flags = if lct { 0x80 | (k % 8) as u8 } else { 0 } | if k % 3 == 2 { 0x40 } else { 0 };
        m.push(RBlock::Desc { l: [0, 7, 65535][(k % 3) as usize], t: [0, 65535, 12][(k % 3) as usize], w: 1 + (k % 12) as u16, h: 1, flags });
        if lct {
            m.push(RBlock::Lct(vec![3; 3 * table_len(flags)]));
        }
        m.push(RBlock::Image(simple_image(&vec![1; 1 + (k % 12) as usize])));
    }
    m.push(RBlock::Trailer);
    check(cx, &[File::Good(m)], None)
}
