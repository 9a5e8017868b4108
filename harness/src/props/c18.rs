//! C18: malformed input is diagnosed with the documented error
use crate::engine::*;
use crate::generate::*;
use crate::refgif::*;
use crate::view::*;

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        level: "exploration",
        rule: "one defect of a drawn kind is put at a drawn place of a valid animation; the items before it and the \
               error are compared with the expectation for each level (a defect which exists only for frames or steps \
               must not be reported by the lower levels); a quarter of the files have no defect and must decode \
               without an error; non-trivial: the defect comes after a complete frame, or there is none; distinct by \
               file bytes",
        assumptions: &["one defect per file"],
        quick: 2_000_000,
        thorough: 12_000_000,
        run,
        enum_n,
        enum_run,
        must: &[
            "none",
            "signature",
            "version",
            "block code",
            "control length",
            "lzw code",
            "lzw first code",
            "too little data",
            "no data",
            "second control",
            "no frame",
            "outside screen",
            "no table",
            "bad index",
            "bad index, transparent",
        ],
    }
}

/// What a level must deliver: number of items and error
struct Want {
    /// Number of the file's blocks before those the defect belongs to
    whole: usize,
    blocks: usize,
    block_err: Option<&'static str>,
    frames: usize,
    frame_err: Option<&'static str>,
    steps: usize,
    step_err: Option<&'static str>,
}

fn all(blocks: usize, frames: usize, err: &'static str) -> Want {
    Want { whole: blocks, blocks, block_err: Some(err), frames, frame_err: Some(err), steps: frames, step_err: Some(err) }
}

fn prefix<T>(what: &str, got: Seq<T>, before: Seq<T>, n: usize, m: usize, err: Option<&'static str>, cmp: fn(&[T], &[T]) -> R) -> R {
    let name = got.err_name();
    if got.items.len() != n || name.as_deref() != err {
        return Err(format!("{what}: {} items and {name:?} instead of {n} and {err:?}", got.items.len()));
    }
    // the items before the defect are those of a file which ends there
    let k = m.min(before.items.len()).min(n);
    cmp(&got.items[..k], &before.items[..k]).map_err(|e| format!("{what} before {err:?}: {e}"))
}

fn judge(cx: &mut Cx, m: &[RBlock], bytes: &[u8], w: &Want) -> R {
    cx.input(bytes);
    cx.nontrivial(w.steps > 0);
    let lim = None;
    let max = bytes.len() + 4;
    let mut good = write(&m[..w.whole]).0;
    good.push(0x3B);
    let g = || feed(&good);
    let nb = w.whole.min(w.blocks);
    let images = m[..w.whole].iter().filter(|b| matches!(b, RBlock::Image(_))).count();
    prefix("blocks", blocks(feed(bytes), max, lim), blocks(g(), max, lim), w.blocks, nb, w.block_err, cmp_blocks)?;
    prefix("frames", frames(feed(bytes), max, lim), frames(g(), max, lim), w.frames, images, w.frame_err, cmp_frames)?;
    // (without any frame there is no preamble to ask for)
    if w.frames > 0 || w.frame_err.is_some() {
        let got = frames_after(feed(bytes), max, lim);
        prefix("frames after preamble", got, frames(g(), max, lim), w.frames, images, w.frame_err, cmp_frames)?;
    }
    prefix("steps", steps(feed(bytes), max, lim), steps(g(), max, lim), w.steps, images, w.step_err, cmp_steps)?;
    if w.step_err.is_some() {
        prefix("looping", looping(feed(bytes), max, lim), steps(g(), max, lim), w.steps, images, w.step_err, cmp_steps)?;
    }
    Ok(())
}

/// Image data with a bad code after some good ones
fn bad_codes(cx: &mut Cx, n: usize, first: bool) -> Vec<u8> {
    let min = cx.t.usize(2, 8) as u32;
    let clear = 1u32 << min;
    let mut w = BitW::new();
    let (mut size, mut width) = (clear + 2, min + 1);
    if cx.t.flag() {
        w.put(clear, width);
    }
    let mut good = if first { 0 } else { cx.t.usize(1, (n - 1).clamp(1, 5000)) };
    if first && n > 1 && cx.t.flag() {
        // a clear code in between
        w.put(cx.t.draw(clear as u64 - 1) as u32, width);
        w.put(clear, width);
    }
    let mut k = 0;
    loop {
        // a code beyond the next to be added must fit
        let room = (1 << width) - 1 > size;
        if k >= good && (room || first) {
            break;
        }
        if k > n.saturating_sub(2) && !first {
            // no space left: start again
            w.put(clear, width);
            (size, width) = (clear + 2, min + 1);
            good = 0;
            w.put(0, width);
            break;
        }
        w.put(cx.t.draw(clear as u64 - 1) as u32, width);
        if k > 0 && size < 4096 {
            size += 1;
            if size == 1 << width && width < 12 {
                width += 1;
            }
        }
        k += 1;
    }
    let _ = good;
    let top = (1u64 << width) - 1;
    let bad = if first {
        cx.t.range(clear as u64 + 2, top)
    } else {
        cx.t.range(size as u64 + 1, top)
    };
    w.put(bad as u32, width);
    for _ in 0..cx.t.draw(20) {
        w.put(cx.t.byte() as u32, 8);
    }
    let mut o = vec![min as u8];
    for c in split(&w.finish(0), cx.t) {
        o.push(c.len() as u8);
        o.extend(c);
    }
    o.push(0);
    o
}

fn run(cx: &mut Cx) -> R {
    let kind = cx.t.weighted(&[6, 1, 1, 2, 2, 3, 2, 3, 1, 3, 1, 3, 3, 3]);
    defect(cx, kind)
}

fn defect(cx: &mut Cx, kind: usize) -> R {
    let names = [
        "none",
        "signature",
        "version",
        "block code",
        "control length",
        "lzw code",
        "lzw first code",
        "too little data",
        "no data",
        "second control",
        "no frame",
        "outside screen",
        "no table",
        "bad index",
    ];
    let name = names[kind];
    let mut o = GifOpts { small: true, area: 500, side: 12, ..GifOpts::steps() };
    if cx.t.chance(1, 8) {
        o.side = 90;
        o.area = 4000;
        o.long = true;
        cx.class("larger screen");
    }
    if kind == 10 {
        o.frames = (0, 0);
        o.ext = 50;
    }
    let mut m = gif(cx.t, &o);
    if name == "lzw code" {
        // more than one pixel in every frame
        for b in &mut m {
            if let RBlock::Image(i) = b
                && i.pixels.len() < 2
            {
                cx.class("skipped");
                return Ok(());
            }
        }
    }
    cx.class(name);
    let n_frames = |m: &[RBlock]| m.iter().filter(|b| matches!(b, RBlock::Image(_))).count();
    let descs: Vec<usize> = (0..m.len()).filter(|i| matches!(m[*i], RBlock::Desc { .. })).collect();
    let starts: Vec<usize> = (2..m.len())
        .filter(|i| !matches!(m[*i], RBlock::Gct(_) | RBlock::Lct(_) | RBlock::Image(_)))
        .collect();
    let (mut bytes, ends) = write(&m);
    let start = |i: usize| if i == 0 { 0 } else { ends[i - 1] };
    let sum = summary(&m);
    cx.sample(|| format!("{name} in {sum}"));
    match kind {
        0 => {
            let n = n_frames(&m);
            let w = Want { whole: m.len(), blocks: m.len(), block_err: None, frames: n, frame_err: None, steps: n, step_err: None };
            judge(cx, &m, &bytes, &w)
        }
        1 => {
            let k = cx.t.usize(0, 2);
            bytes[k] = bytes[k].wrapping_add(cx.t.range(1, 255) as u8);
            cx.nontrivial(true);
            judge(cx, &m, &bytes, &all(0, 0, "MalformedHeader"))
        }
        2 => {
            let v = if cx.t.flag() {
                cx.t.pick(&[*b"87b", *b"88a", *b"89A", *b"89b", *b"90a", *b"79a", *b"\0\0\0", *b"78a", *b"98a"])
            } else {
                let mut v = [cx.t.byte(), cx.t.byte(), cx.t.byte()];
                if &v == b"87a" || &v == b"89a" {
                    v[0] = b'9';
                }
                v
            };
            bytes[3..6].copy_from_slice(&v);
            let s = blocks(feed(&bytes), bytes.len(), None);
            match &s.err {
                Some(gift::Error::UnsupportedVersion(x)) if *x == v => {}
                _ => return Err(format!("version {v:?}: {:?}", s.err_name())),
            }
            let e: &'static str = Box::leak(s.err_name().unwrap().into_boxed_str());
            let r = judge(cx, &m, &bytes, &all(0, 0, e));
            cx.nontrivial(true);
            r
        }
        3 | 4 => {
            let at = cx.t.pick(&starts);
            let raw = if kind == 3 {
                let mut c = cx.t.byte();
                while [0x21, 0x2C, 0x3B].contains(&c) {
                    c = c.wrapping_add(1);
                }
                vec![c]
            } else {
                let k = cx.t.pick(&[1usize, 2, 3, 5, 6, 7, 8, 255]);
                let mut v = vec![0x21, 0xF9, k as u8];
                v.extend(payload(cx.t, k));
                v.push(0);
                v
            };
            let p = start(at);
            bytes.splice(p..p, raw);
            let e = if kind == 3 { "InvalidBlockCode" } else { "MalformedGraphicControlExtension" };
            judge(cx, &m, &bytes, &all(at, n_frames(&m[..at]), e))
        }
        5..=8 => {
            let d = cx.t.pick(&descs);
            let i = d + if let RBlock::Lct(_) = m[d + 1] { 2 } else { 1 };
            let RBlock::Image(img) = &m[i] else { unreachable!() };
            let raw = match kind {
                5 => bad_codes(cx, img.pixels.len(), false),
                6 => bad_codes(cx, img.pixels.len(), true),
                7 => {
                    let n = match cx.t.draw(2) {
                        0 => img.pixels.len() - 1,
                        1 => 0,
                        _ => cx.t.usize(0, img.pixels.len() - 1),
                    };
                    let less = lzw_image(cx.t, img.pixels[..n].to_vec());
                    let mut v = vec![];
                    write_block(&mut v, &RBlock::Image(less));
                    v
                }
                _ => vec![cx.t.usize(2, 8) as u8, 0],
            };
            bytes.splice(start(i)..ends[i], raw);
            let e = if kind <= 6 { "InvalidLzwData" } else { "IncompleteImageData" };
            judge(cx, &m, &bytes, &all(i, n_frames(&m[..i]), e))
        }
        9 => {
            // before an image, or the graphic control of one
            let d = cx.t.pick(&descs);
            let g = (0..d).rev().take_while(|i| !matches!(m[*i], RBlock::Image(_) | RBlock::PlainText(_))).find(|i| matches!(m[*i], RBlock::Gce { .. }));
            let at = g.unwrap_or(d);
            let mut new = vec![RBlock::Gce { flags: cx.t.byte(), delay: 1, tidx: 1 }];
            if g.is_none() {
                new.push(RBlock::Gce { flags: cx.t.byte(), delay: 2, tidx: 2 });
            }
            if cx.t.flag() {
                let u = RBlock::Unknown(0x55, vec![vec![1]]);
                new.insert(1, u);
            }
            m.splice(at..at, new);
            let (bytes, _) = write(&m);
            let n = n_frames(&m[..at]);
            let w = Want {
                whole: at,
                blocks: m.len(),
                block_err: None,
                frames: n,
                frame_err: Some("InvalidBlockSequence"),
                steps: n,
                step_err: Some("InvalidBlockSequence"),
            };
            judge(cx, &m, &bytes, &w)
        }
        10 => {
            let w = Want {
                whole: m.len() - 1,
                blocks: m.len(),
                block_err: None,
                frames: 0,
                frame_err: None,
                steps: 0,
                step_err: Some("InvalidBlockSequence"),
            };
            let r = judge(cx, &m, &bytes, &w);
            cx.nontrivial(true);
            r
        }
        // for steps only
        _ => {
            let d = cx.t.pick(&descs);
            let k = n_frames(&m[..d]);
            let RBlock::Screen { w: sw, h: sh, flags: sf, .. } = m[1] else { unreachable!() };
            let e = match kind {
                11 => {
                    let RBlock::Desc { l, t, w, h, .. } = &mut m[d] else { unreachable!() };
                    let tall = cx.t.flag();
                    let (pos, len, scr) = if tall { (t, *h, sh) } else { (l, *w, sw) };
                    let out = scr - len;
                    *pos = match cx.t.draw(4) {
                        0 => out + 1,
                        1 => scr,
                        2 => 65535,
                        3 => (out + 1).max(32768),
                        _ => cx.t.range(out as u64 + 1, 65535) as u16,
                    };
                    "InvalidFrameDimensions"
                }
                12 => {
                    // the frame loses its table, and the file the global one
                    if let RBlock::Lct(_) = m[d + 1] {
                        m.remove(d + 1);
                    }
                    let RBlock::Desc { flags, .. } = &mut m[d] else { unreachable!() };
                    *flags &= 0x7F;
                    // earlier frames need one
                    let earlier: Vec<usize> = descs.iter().copied().filter(|i| *i < d).rev().collect();
                    if sf & 0x80 != 0 {
                        let RBlock::Gct(g) = m[2].clone() else { unreachable!() };
                        for i in earlier {
                            let RBlock::Desc { flags, .. } = &mut m[i] else { unreachable!() };
                            if *flags & 0x80 == 0 {
                                *flags = *flags & 0x78 | 0x80 | sf & 7;
                                m.insert(i + 1, RBlock::Lct(g.clone()));
                            }
                        }
                        m.remove(2);
                        let RBlock::Screen { flags, .. } = &mut m[1] else { unreachable!() };
                        *flags &= 0x7F;
                    }
                    "MissingColorTable"
                }
                _ => {
                    let local = matches!(m[d + 1], RBlock::Lct(_));
                    let i = d + 1 + local as usize;
                    let n = match (&m[d + 1], &m[2]) {
                        (RBlock::Lct(c), _) => c.len() / 3,
                        (_, RBlock::Gct(c)) => c.len() / 3,
                        _ => unreachable!(),
                    };
                    if n == 256 {
                        cx.class("skipped");
                        return Ok(());
                    }
                    let bad = if cx.t.flag() { n } else { cx.t.usize(n, 255) } as u8;
                    // transparent or not
                    if let Some(g) = (0..d).rev().take_while(|i| !matches!(m[*i], RBlock::Image(_) | RBlock::PlainText(_))).find(|i| matches!(m[*i], RBlock::Gce { .. }))
                        && cx.t.chance(1, 3)
                        && let RBlock::Gce { flags, tidx, .. } = &mut m[g]
                    {
                        *flags |= 1;
                        *tidx = bad;
                        cx.class("bad index, transparent");
                    }
                    let RBlock::Image(img) = &mut m[i] else { unreachable!() };
                    let k = match cx.t.draw(2) {
                        0 => img.pixels.len() - 1,
                        1 => 0,
                        _ => cx.t.usize(0, img.pixels.len() - 1),
                    };
                    let mut px = img.pixels.clone();
                    px[k] = bad;
                    *img = simple_image(&px);
                    "InvalidColorIndex"
                }
            };
            let (bytes, _) = write(&m);
            let n = n_frames(&m);
            // the frames before
            let mut images = 0;
            let whole = m.iter().position(|b| {
                let full = images == k;
                images += matches!(b, RBlock::Image(_)) as usize;
                full
            });
            let whole = whole.unwrap_or(0);
            let w = Want { whole, blocks: m.len(), block_err: None, frames: n, frame_err: None, steps: k, step_err: Some(e) };
            judge(cx, &m, &bytes, &w)
        }
    }
}

/// Enumerated: every wrong signature byte, every wrong block code, every
/// wrong control length; large files; bad codes where the LZW dictionary gets
/// full or codes get wider
fn enum_n(_: Tier) -> u64 {
    3 * 256 + 256 + 256 + 2 * BIG + EDGES
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    if i >= 5 * 256 + 2 * BIG {
        let mut r = cx.t.bulk();
        let Some(e) = edge(i - 5 * 256 - 2 * BIG, &mut r) else { return Ok(()) };
        if e.pixels.is_some() {
            return Ok(());
        }
        cx.class("dictionary edge");
        let w = e.before as u16 + 5;
        let m = vec![
            RBlock::Header(*b"89a"),
            RBlock::Screen { w, h: 1, flags: 0xF7, bg: 0, aspect: 0 },
            RBlock::Gct(vec![1; 768]),
            RBlock::Desc { l: 0, t: 0, w: 2, h: 1, flags: 0 },
            RBlock::Image(simple_image(&[1, 2])),
            RBlock::Desc { l: 0, t: 0, w, h: 1, flags: 0 },
            RBlock::Image(RImage { pixels: vec![], min: e.min, chunks: plain_split(&e.data) }),
            RBlock::Trailer,
        ];
        let b = write(&m).0;
        return judge(cx, &m, &b, &all(6, 1, "InvalidLzwData"));
    }
    if i >= 5 * 256 {
        // large files, without a defect and with one at the end
        let i = i - 5 * 256;
        let mut r = cx.t.bulk();
        let m = big(i / 2, &mut r);
        cx.class("large file");
        let (mut b, ends) = write(&m);
        let n = m.iter().filter(|b| matches!(b, RBlock::Image(_))).count();
        if i % 2 == 0 {
            let w = Want { whole: m.len(), blocks: m.len(), block_err: None, frames: n, frame_err: None, steps: n, step_err: None };
            return judge(cx, &m, &b, &w);
        }
        let p = ends[m.len() - 2];
        b.insert(p, 0x2D);
        return judge(cx, &m, &b, &all(m.len() - 1, n, "InvalidBlockCode"));
    }
    let m = vec![
        RBlock::Header(*b"87a"),
        RBlock::Screen { w: 1, h: 1, flags: 0x80, bg: 0, aspect: 0 },
        RBlock::Gct(vec![1, 2, 3, 4, 5, 6]),
        RBlock::Desc { l: 0, t: 0, w: 1, h: 1, flags: 0 },
        RBlock::Image(simple_image(&[1])),
        RBlock::Trailer,
    ];
    let (mut b, ends) = write(&m);
    let x = i as u8;
    let (w, raw) = if i < 768 {
        let k = (i / 256) as usize;
        if b[k] == x {
            return Ok(());
        }
        b[k] = x;
        return judge(cx, &m, &b, &all(0, 0, "MalformedHeader"));
    } else if i < 1024 {
        if [0x21, 0x2C, 0x3B].contains(&x) {
            return Ok(());
        }
        (all(5, 1, "InvalidBlockCode"), vec![x])
    } else {
        if x == 4 || x == 0 {
            return Ok(());
        }
        let mut v = vec![0x21, 0xF9, x];
        v.resize(3 + x as usize + 1, 0);
        (all(5, 1, "MalformedGraphicControlExtension"), v)
    };
    b.splice(ends[4]..ends[4], raw);
    judge(cx, &m, &b, &w)
}
