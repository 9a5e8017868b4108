//! C30: files cannot control the terminal
use crate::cli;
use crate::engine::*;
use crate::generate::*;
use crate::refgif::*;
use std::ffi::OsString;

pub fn prop() -> Prop {
    Prop {
        id: "C30",
        level: "exploration",
        rule: "the built utility is run on files whose comments, other extensions and names hold control characters \
               and escape sequences, whole or cut off, and on twins with full stops in place of the control \
               characters of comments; what it prints may hold no control character but line ends, tabs and colour \
               sequences, the latter being those it prints for the twin; non-trivial: a control character in a \
               comment; distinct by file bytes",
        assumptions: &["sequences ESC [ ... m are the utility's own if the twin's listing has the same ones"],
        quick: 72_000,
        thorough: 288_000,
        run,
        enum_n,
        enum_run,
        must: &["escape", "other control", "C1 control", "cut off", "control in name"],
    }
}

const PARTS: &[&[u8]] = &[
    b"word", b" ", b"\n", b"\x1B[31m", b"\x1B[0m", b"\x1B]0;title\x07", b"\x1B[2J", b"\x1B[1;1H", b"\x1Bc", b"\x1B", b"\x9B31m",
    b"\xC2\x9B31m", b"\xC2\x85", b"\r", b"\x08", b"\x07", b"\0", b"\x0B", b"\x0C", b"\x0E", b"\x7F", b"\t", "ü".as_bytes(), b"\xFF", b"[31m",
];

fn text(cx: &mut Cx) -> Vec<u8> {
    let n = cx.t.usize(1, 6);
    let mut v = vec![];
    for _ in 0..n {
        match cx.t.weighted(&[6, 1]) {
            0 => v.extend_from_slice(cx.t.pick(PARTS)),
            _ => v.push(cx.t.byte()),
        }
    }
    v
}

/// Harmless text in place of the other, line by line
fn tame(s: &[u8]) -> Vec<u8> {
    let f = |c: char| if c.is_control() && !c.is_whitespace() { '.' } else { c };
    String::from_utf8_lossy(s).chars().map(f).collect::<String>().into_bytes()
}

fn run(cx: &mut Cx) -> R {
    let mut m = gif(cx.t, &GifOpts { frames: (1, 3), area: 60, late_meta: false, ..GifOpts::blocks() });
    m.retain(|b| !matches!(b, RBlock::Comment(_)));
    let at = 2 + matches!(m[2], RBlock::Gct(_)) as usize;
    for _ in 0..cx.t.usize(1, 3) {
        let n = cx.t.usize(1, 3);
        let subs = (0..n).map(|_| text(cx)).collect();
        let at = if cx.t.flag() { at } else { cx.t.usize(at, m.len() - 1) };
        let at = (at..m.len()).find(|i| !matches!(m[*i], RBlock::Lct(_) | RBlock::Image(_))).unwrap();
        m.insert(at, RBlock::Comment(subs));
    }
    if cx.t.chance(1, 4) {
        let s = text(cx);
        m.insert(at, if cx.t.flag() { RBlock::PlainText(vec![s]) } else { RBlock::App(vec![s]) });
    }
    let cut = if cx.t.chance(1, 5) { Some(cx.t.usize(0, m.len() - 1)) } else { None };
    let name = if cx.t.chance(1, 4) {
        cx.class("control in name");
        cx.t.pick(&["\x1B[31m", "a\x07b", "a\nb", "\u{9B}31m", "a\r"])
    } else {
        "a"
    };
    check(cx, &m, cut, name)
}

/// Colour sequences; fails for other control characters
fn sequences(what: &str, b: &[u8]) -> Result<Vec<String>, String> {
    let s = std::str::from_utf8(b).map_err(|_| format!("{what} is not UTF-8"))?;
    let mut v = vec![];
    let mut it = s.char_indices().peekable();
    while let Some((i, c)) = it.next() {
        if c == '\x1B' && it.next_if(|c| c.1 == '[').is_some() {
            let mut q = String::new();
            while let Some((_, d)) = it.next_if(|c| c.1.is_ascii_digit() || c.1 == ';') {
                q.push(d);
            }
            if it.next_if(|c| c.1 == 'm').is_some() {
                v.push(q);
                continue;
            }
        }
        if c.is_control() && c != '\n' && c != '\t' {
            let n = s.len().min(i + 20);
            return Err(format!("control character {c:?} is printed in {what}: {:?}", String::from_utf8_lossy(&b[i.saturating_sub(20)..n])));
        }
    }
    Ok(v)
}

fn check(cx: &mut Cx, m: &[RBlock], cut: Option<usize>, name: &str) -> R {
    let twin: Vec<RBlock> = m
        .iter()
        .map(|b| match b {
            RBlock::Comment(s) => RBlock::Comment(s.iter().map(|s| tame(s)).collect()),
            b => b.clone(),
        })
        .collect();
    for b in m {
        if let RBlock::Comment(s) = b {
            for c in s.iter().flat_map(|s| String::from_utf8_lossy(s).chars().collect::<Vec<_>>()) {
                cx.class_if(c == '\x1B', "escape");
                cx.class_if(c < ' ' && c != '\x1B' && !"\t\n".contains(c), "other control");
                cx.class_if(('\u{80}'..='\u{9F}').contains(&c), "C1 control");
                cx.nontrivial(c.is_control() && !"\t\n".contains(c));
            }
        }
    }
    cx.class_if(cut.is_some(), "cut off");
    let dir = cli::Scratch::new();
    let name = format!("{name}.gif");
    let path = dir.path().join(&name);
    let mut outs = vec![];
    for m in [m, &twin] {
        let (mut b, ends) = write(m);
        if let Some(k) = cut {
            b.truncate(ends[k].min(b.len() - 1));
        }
        std::fs::write(&path, &b).map_err(|e| format!("HARNESS: {e}"))?;
        if outs.is_empty() {
            cx.input(&b);
        }
        cx.exec();
        outs.push(cli::run(&[OsString::from(&name)], dir.path(), None)?);
    }
    cx.sample(|| format!("{name:?}: {:?}", cli::plain(&outs[0].stdout).lines().nth(1)));
    for (k, what) in ["the listing", "the messages"].into_iter().enumerate() {
        let of = |o: &cli::Output| sequences(what, if k == 0 { &o.stdout } else { o.stderr.as_bytes() });
        let (a, b) = (of(&outs[0])?, of(&outs[1])?);
        if a != b {
            return Err(format!("colour sequences of a comment are printed in {what}: {a:?} instead of {b:?}"));
        }
    }
    Ok(())
}

/// Enumerated: each control character, at the beginning, the end and within a
/// comment
fn enum_n(_: Tier) -> u64 {
    65 * 3
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    let c = match i / 3 {
        k @ 0..32 => k as u8 as char,
        k => char::from_u32(0x7F + k as u32 - 32).unwrap(),
    };
    let s = match i % 3 {
        0 => format!("{c}[31mx"),
        1 => format!("a{c}[31mb"),
        _ => format!("ab{c}"),
    };
    let m = vec![
        RBlock::Header(*b"89a"),
        RBlock::Screen { w: 1, h: 1, flags: 0x80, bg: 0, aspect: 0 },
        RBlock::Gct(vec![1; 6]),
        RBlock::Comment(vec![s.into_bytes()]),
        RBlock::Desc { l: 0, t: 0, w: 1, h: 1, flags: 0 },
        RBlock::Image(simple_image(&[1])),
        RBlock::Trailer,
    ];
    check(cx, &m, None, "a")
}
