//! C11: frames and preamble group the file's blocks faithfully
use crate::engine::*;
use crate::generate::*;
use crate::refgif::*;
use crate::view::*;

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        level: "exploration",
        rule: "well-formed files with any number of frames, tables and graphic controls present or not, all kinds of \
               extensions anywhere, and graphic controls which belong to plain text are decoded to frames, with the \
               preamble requested or not, and compared with a reference grouping of the file's blocks; non-trivial: 2 \
               or more frames; distinct by file bytes",
        assumptions: &["the reference grouping in refgif.rs is right"],
        quick: 900_000,
        thorough: 3_600_000,
        run,
        enum_n,
        enum_run,
        must: &["text control", "lct", "loop count", "comment", "plain text", "frames without control", "two loop counts", "shared table", "repeated frame"],
    }
}

fn run(cx: &mut Cx) -> R {
    let mut o = GifOpts::blocks();
    o.frames = (0, 6);
    o.area = 3000;
    o.late_meta = cx.t.flag();
    let mut m = gif(cx.t, &o);
    if cx.t.flag() && add_text_controls(cx.t, &mut m) {
        cx.class("text control");
    }
    classify(cx, &m);
    check(cx, &m)
}

fn check(cx: &mut Cx, m: &[RBlock]) -> R {
    let (bytes, _) = write(m);
    cx.input(&bytes);
    cx.sample(|| summary(m));
    let (pre, want) = group(m);
    cx.nontrivial(want.len() >= 2);
    cx.class_if(want.iter().any(|f| f.gce.is_none()) && want.iter().any(|f| f.gce.is_some()), "frames without control");
    let first = m.iter().position(|b| matches!(b, RBlock::Gce { .. } | RBlock::Desc { .. })).unwrap_or(m.len());
    let loops = m[..first].iter().filter(|b| matches!(b, RBlock::App(s) if loop_count(s).is_some())).count();
    cx.class_if(loops >= 2, "two loop counts");
    let max = bytes.len() + 4;
    let lim = Some(None);
    let f = frames(feed(&bytes), max, lim);
    if let Some(e) = f.err_name() {
        return Err(format!("frames: {e} after {}", f.items.len()));
    }
    cmp_frames(&f.items, &want)?;
    // values which frames report
    let mut fr = dec(feed(&bytes), lim).into_frames();
    let got = match fr.preamble() {
        Ok(Some(p)) => p,
        // a file without frames has no use for a preamble
        Err(_) if want.is_empty() => return Ok(()),
        Ok(None) => return Err("no preamble".into()),
        Err(e) => return Err(format!("preamble: {}", err_name(&e))),
    };
    let g = preamble_view(&got);
    if g != pre {
        return Err(format!("preamble is {g:?} instead of {pre:?}"));
    }
    if (got.screen_width(), got.screen_height()) != (pre.screen.0, pre.screen.1) {
        return Err("preamble reports another screen size".into());
    }
    // asking again gives nothing and costs nothing
    if cx.t.flag()
        && let Ok(Some(_)) = fr.preamble()
    {
        return Err("a second preamble".into());
    }
    let mut items = vec![];
    for f in fr.take(max) {
        let f = f.map_err(|e| format!("frames after preamble: {}", err_name(&e)))?;
        let v = frame_view(&f);
        let same = (f.left(), f.top(), f.width(), f.height()) == (v.l, v.t, v.w, v.h)
            && f.transparent_color() == v.trans()
            && u8::from(f.disposal_method()) == v.disposal();
        if !same {
            return Err(format!("frame {} reports other values than its blocks", items.len()));
        }
        items.push(v);
    }
    cmp_frames(&items, &want).map_err(|e| format!("after preamble: {e}"))
}

/// Enumerated: all small arrangements of blocks before two frames; large files
fn enum_n(_: Tier) -> u64 {
    7 * 7 * 7 * 2 + BIG
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    if i >= 7 * 7 * 7 * 2 {
        let mut r = cx.t.bulk();
        cx.class("large file");
        return check(cx, &big(i - 7 * 7 * 7 * 2, &mut r));
    }
    let mut m = vec![
        RBlock::Header(*b"89a"),
        RBlock::Screen { w: 3, h: 2, flags: 0x80, bg: 1, aspect: 2 },
        RBlock::Gct(vec![1, 2, 3, 4, 5, 6]),
    ];
    let piece = |k: u64, n: u8| -> Vec<RBlock> {
        match k {
            0 => vec![],
            1 => vec![RBlock::Comment(vec![vec![n]])],
            2 => vec![RBlock::App(vec![b"NETSCAPE2.0".to_vec(), vec![1, n, 1]])],
            3 => vec![RBlock::App(vec![b"NETSCAPE2.1".to_vec(), vec![1, n, 1]])],
            4 => vec![RBlock::PlainText(vec![vec![n, n]])],
            5 => vec![RBlock::Unknown(0x77, vec![vec![n]])],
            _ => vec![RBlock::Gce { flags: 0x1D, delay: 500, tidx: n }, RBlock::PlainText(vec![vec![n]])],
        }
    };
    let (a, b, c, d) = (i % 7, i / 7 % 7, i / 49 % 7, i / 343);
    for n in 0..2u8 {
        let mut p = piece(a, n + 1);
        p.extend(piece(b, n + 11));
        m.extend(p);
        if d == 1 {
            m.push(RBlock::Gce { flags: n * 4 + 1, delay: n as u16, tidx: n });
            if c != 6 && c != 4 {
                m.extend(piece(c, n + 21));
            }
        }
        m.push(RBlock::Desc { l: 0, t: n as u16, w: 2, h: 1, flags: n << 7 });
        if n == 1 {
            m.push(RBlock::Lct(vec![9; 6]));
        }
        m.push(RBlock::Image(simple_image(&[n, 1])));
    }
    m.push(RBlock::Trailer);
    check(cx, &m)
}
