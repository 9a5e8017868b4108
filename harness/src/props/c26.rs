//! C26: the command-line listing is laid out for reading
use super::c19::{compare, readable, tail, want};
use crate::cli::{self, Style};
use crate::engine::*;
use crate::generate::*;
use crate::refgif::*;
use std::ffi::OsString;

pub fn prop() -> Prop {
    Prop {
        id: "C26",
        level: "exploration",
        rule: "the built utility is run on 1..3 generated files, sometimes with an undecodable one after them, whose frames lie inside the screen, with screens, \
               positions, sizes, delays, indices and numbers of frames at the edges of their columns; the columns in \
               which the values and their headings end, and the colours and attributes of each value, are compared \
               with the file's model; non-trivial: values both ordinary and special; distinct by files' bytes",
        assumptions: &[
            "a column of the terminal is one character; the listing's values are all ASCII",
            "frames inside the screen: otherwise their sizes and positions may be wider than the columns",
        ],
        quick: 60_000,
        thorough: 360_000,
        run,
        enum_n,
        enum_run,
        must: &[
            "several files",
            "failure",
            "10 columns",
            "frames:100",
            "reserved disposal",
            "full size",
            "part of the screen",
            "at the corner",
            "off the corner",
            "own table",
            "global table",
            "delay",
            "no delay",
            "transparent index",
        ],
    }
}

fn edge(t: &mut crate::tape::Tape, max: u16) -> u16 {
    let e = [1u16, 2, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 9999, 10000, 10001, 65535];
    let n = if t.chance(1, 3) { t.word() } else { t.pick(&e) };
    if n > max { if t.flag() { max } else { n % max + 1 } } else { n.max(1) }
}

fn file(t: &mut crate::tape::Tape) -> Vec<RBlock> {
    let (sw, sh) = (edge(t, 65535), edge(t, 65535));
    let gct = t.chance(4, 5);
    let flags = t.draw(127) as u8 | if gct { 0x80 } else { 0 };
    let mut v = vec![RBlock::Header(if t.chance(1, 4) { *b"87a" } else { *b"89a" })];
    v.push(RBlock::Screen { w: sw, h: sh, flags, bg: t.byte(), aspect: t.byte() });
    if gct {
        v.push(RBlock::Gct(table(t, table_len(flags))));
    }
    if t.chance(1, 4) {
        v.push(RBlock::Comment(vec![b"one\ntwo".to_vec()]));
    }
    if t.chance(1, 4) {
        v.push(RBlock::App(vec![b"NETSCAPE2.0".to_vec(), vec![1, t.byte(), t.byte()]]));
    }
    let n = if t.chance(1, 40) { t.pick(&[9, 10, 11, 99, 100, 101, 120]) } else { t.usize(1, 6) };
    for _ in 0..n {
        if t.chance(3, 4) {
            let delay = if t.chance(1, 3) { t.word() } else { t.pick(&[0, 0, 0, 1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 65535]) };
            v.push(RBlock::Gce { flags: t.byte(), delay, tidx: t.byte() });
        }
        // at most some pixels
        let (w, h) = if t.flag() && sw as u32 * sh as u32 <= 70_000 {
            (sw, sh)
        } else {
            let w = edge(t, sw);
            let h = edge(t, sh);
            if t.flag() { (w.min(2000), h.min(8)) } else { (w.min(8), h.min(2000)) }
        };
        let at = |t: &mut crate::tape::Tape, room: u16| match t.draw(3) {
            0 => 0,
            1 => room,
            _ if room > 0 => edge(t, room),
            _ => 0,
        };
        let l = at(t, sw - w);
        let tp = at(t, sh - h);
        let lct = t.chance(1, 3);
        let flags = t.draw(127) as u8 | if lct { 0x80 } else { 0 };
        v.push(RBlock::Desc { l, t: tp, w, h, flags });
        if lct {
            v.push(RBlock::Lct(table(t, table_len(flags))));
        }
        v.push(RBlock::Image(simple_image(&vec![t.draw(1) as u8; w as usize * h as usize])));
    }
    v.push(RBlock::Trailer);
    v
}

fn run(cx: &mut Cx) -> R {
    let n = if cx.t.chance(3, 4) { 1 } else { cx.t.usize(2, 3) };
    let files = (0..n).map(|_| file(cx.t)).collect::<Vec<_>>();
    let bad = cx.t.chance(1, 6);
    check(cx, &files, bad)
}

/// A line's words: text, last column, style of the first character
fn words(line: &[(char, Style)]) -> Vec<(String, usize, Style)> {
    let mut v: Vec<(String, usize, Style)> = vec![];
    let mut open = false;
    for (i, (c, s)) in line.iter().enumerate() {
        if c.is_whitespace() {
            open = false;
        } else if open {
            let w = v.last_mut().unwrap();
            w.0.push(*c);
            w.1 = i;
        } else {
            v.push((c.to_string(), i, s.clone()));
            open = true;
        }
    }
    v
}

fn check(cx: &mut Cx, files: &[Vec<RBlock>], bad: bool) -> R {
    let dir = cli::Scratch::new();
    let mut args = vec![];
    let mut all = vec![];
    for (i, m) in files.iter().enumerate() {
        let (b, _) = write(m);
        let name = format!("{i}.gif");
        std::fs::write(dir.path().join(&name), &b).map_err(|e| format!("HARNESS: {e}"))?;
        args.push(OsString::from(name));
        all.extend(b);
    }
    if bad {
        // after the others, one which cannot be decoded
        let name = "bad.gif";
        if cx.t.flag() {
            std::fs::write(dir.path().join(name), b"GIF89a").map_err(|e| format!("HARNESS: {e}"))?;
        }
        args.push(OsString::from(name));
        cx.class("failure");
    }
    cx.class_if(files.len() > 1, "several files");
    cx.key(&all);
    if all.len() < 200_000 {
        cx.info.input = Some(all);
    }
    cx.exec();
    let o = cli::run(&args, dir.path(), None)?;
    if !bad && o.code != Some(0) {
        return Err(format!("exit {:?}: {}", o.code, tail(&o.stderr)));
    }
    let text = cli::plain(&o.stdout);
    let lines: Vec<String> = text.split('\n').map(|l| l.to_string()).collect();
    let (chars, end) = cli::styled(&o.stdout);
    let styled: Vec<&[(char, Style)]> = chars.split(|c| c.0 == '\n').collect();
    let mut rest = &lines[..];
    let mut plain: Option<Style> = None;
    let mut strong: Option<Style> = None;
    let mut reserved: Option<Style> = None;
    let mut nontrivial = [false; 2];
    for (m, a) in files.iter().zip(&args) {
        let w = want(m);
        let from = rest.len();
        let (pre, frames) = group(m);
        cx.class_if(frames.len() >= 100, "frames:100");
        // the contents are another property's business
        let (block, right) = match compare(rest, a.to_str().unwrap(), &w) {
            Ok(after) => {
                rest = after;
                (&styled[styled.len() - from..styled.len() - after.len()], true)
            }
            Err(_) => {
                let end = (1..from).find(|i| rest[*i].contains(".gif")).unwrap_or(from);
                rest = &rest[end..];
                (&styled[styled.len() - from..styled.len() - rest.len()], false)
            }
        };
        let Some(head) = block.iter().position(|l| words(l).first().is_some_and(|w| w.0 == "Fr#")) else {
            continue;
        };
        let heads = words(block[head]);
        let show = |i: usize| block[i].iter().map(|c| c.0).collect::<String>();
        for (i, (f, l)) in frames.iter().zip(&block[head + 1..]).enumerate() {
            let mut skip = l.to_vec();
            if skip.first().is_some_and(|c| c.0 == 'i') {
                skip[0].0 = ' ';
            }
            let ws = words(&skip);
            if !right && let Some(w) = ws.iter().find(|w| heads.iter().all(|h| h.1 != w.1)) {
                return Err(format!(
                    "frame {i}: {:?} ends in column {}, where no heading ends\n{}\n{}",
                    w.0, w.1, show(head), show(head + 1 + i)
                ));
            }
            for (h, w) in heads.iter().zip(&ws).filter(|_| right) {
                if h.1 != w.1 {
                    return Err(format!(
                        "frame {i}: {:?} ends in column {}, its heading {:?} in column {}\n{}\n{}",
                        w.0, w.1, h.0, h.1, show(head), show(head + 1 + i)
                    ));
                }
            }
            let full = (f.w, f.h) == (pre.screen.0, pre.screen.1);
            let disp = if f.gce.is_some() { f.disposal() } else { 0 };
            let special = [
                (1, f.delay() > 0, "delay", "no delay"),
                (2, disp != 0, "disposal", "no disposal"),
                (3, !full, "part of the screen", "full size"),
                (4, f.l > 0 || f.t > 0, "off the corner", "at the corner"),
                (5, f.lct.is_some(), "own table", "global table"),
                (6, f.trans().is_some(), "transparent index", "no transparent index"),
            ];
            for (k, special, yes, no) in special {
                cx.class(if special { yes } else { no });
                cx.class_if(k == 4 && f.l > 9999 && f.t > 999, "10 columns");
                nontrivial[special as usize] = true;
                if !right {
                    continue;
                }
                let slot = if k == 2 && disp > 3 {
                    cx.class("reserved disposal");
                    &mut reserved
                } else if special {
                    &mut strong
                } else {
                    &mut plain
                };
                match slot {
                    None => *slot = Some(ws[k].2.clone()),
                    Some(s) if *s == ws[k].2 => {}
                    Some(s) => {
                        return Err(format!(
                            "frame {i}: {:?} ({}) is shown as {:?}, others of its kind as {s:?}",
                            ws[k].0,
                            if special { yes } else { no },
                            ws[k].2
                        ));
                    }
                }
            }
        }
    }
    cx.nontrivial(nontrivial == [true; 2]);
    for (a, b, what) in [(&plain, &strong, "ordinary and special"), (&plain, &reserved, "ordinary and reserved"), (&strong, &reserved, "special and reserved")] {
        if a.is_some() && a == b {
            return Err(format!("{what} values are both shown as {a:?}"));
        }
    }
    cx.sample(|| format!("{args:?}: {} lines, plain {plain:?}, strong {strong:?}, reserved {reserved:?}", lines.len()));
    if end != Style::default() {
        return Err(format!("colours at the end: {end:?}"));
    }
    Ok(())
}

/// Enumerated: screen sizes at all edges, and numbers of frames
fn enum_n(_: Tier) -> u64 {
    100 + 8 + BIG
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    let edges = [1u16, 9, 10, 99, 100, 999, 1000, 9999, 10000, 65535];
    let mut v = vec![RBlock::Header(*b"89a")];
    if i < 100 {
        let (sw, sh) = (edges[i as usize / 10], edges[i as usize % 10]);
        v.push(RBlock::Screen { w: sw, h: sh, flags: 0x81, bg: 0, aspect: 0 });
        v.push(RBlock::Gct(vec![7; 12]));
        let full = (0, 0, sw, sh);
        for (l, t, w, h) in [full, (0, 0, sw, 1), (0, 0, 1, sh), (sw - 1, sh - 1, 1, 1), (0, sh - 1, 1, 1), (sw - 1, 0, 1, 1)] {
            if w as u32 * h as u32 <= 1_000_000 {
                v.push(RBlock::Gce { flags: 0, delay: 65535, tidx: 255 });
                v.push(RBlock::Desc { l, t, w, h, flags: 0 });
                v.push(RBlock::Image(simple_image(&vec![1; w as usize * h as usize])));
            }
        }
    } else if i < 108 {
        v.push(RBlock::Screen { w: 1, h: 1, flags: 0x80, bg: 0, aspect: 0 });
        v.push(RBlock::Gct(vec![7; 6]));
        let img = simple_image(&[1]);
        for k in 0..[9u32, 99, 100, 101, 1000, 1001, 10_001, 100_001][i as usize - 100] {
            if k % 3 == 0 {
                v.push(RBlock::Gce { flags: k as u8, delay: k as u16 / 2, tidx: 0 });
            }
            v.push(RBlock::Desc { l: 0, t: 0, w: 1, h: 1, flags: 0 });
            v.push(RBlock::Image(img.clone()));
        }
    } else {
        let mut r = cx.t.bulk();
        let mut m = big(i - 108, &mut r);
        readable(&mut m);
        cx.class("large file");
        return check(cx, &[m], false);
    }
    v.push(RBlock::Trailer);
    check(cx, &[v], false)
}
