//! C07: the image size limit is exact and bounds memory use
use crate::engine::*;
use crate::generate::*;
use crate::mem;
use crate::refgif::*;
use crate::view::*;

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        level: "exploration",
        rule: "files with frames and screens around a size limit (also the default one and no limit) must be rejected \
               as too large exactly when width x height exceeds it; files which expand far beyond their declared size, \
               files of many frames, and arbitrary files are decoded while the heap peak is measured; non-trivial: a \
               frame or screen within 2 of the limit, or a file which expands more than 20 times; distinct by limit \
               and file",
        assumptions: &[
            "the fixed multiple is taken as 16 bytes per pixel of the limit, 4 MB, and 8 (64 for files of tiny \
             sub-blocks) bytes per input byte",
            "heap use counted by the global allocator is the memory use",
        ],
        quick: 30_000,
        thorough: 180_000,
        run,
        enum_n,
        enum_run,
        must: &["kind:limit", "kind:screen", "kind:no limit", "kind:bomb", "kind:many frames", "kind:wild", "at limit", "just above", "huge limit"],
    }
}

fn run(cx: &mut Cx) -> R {
    match cx.t.weighted(&[400, 120, 8, 2, 200]) {
        0 => limit_case(cx),
        1 => screen_case(cx),
        2 => bomb(cx),
        3 => many(cx),
        _ => {
            let (b, _) = wild(cx.t);
            cx.class("kind:wild");
            let limit = cx.t.pick(&[0usize, 1, 100, 4096, 65536, 1 << 18]);
            cx.key((limit, &b));
            peak(&b, limit, 64)?;
            Ok(())
        }
    }
}

/// Width and height with a product near n
fn near(cx: &mut Cx, n: usize) -> (u16, u16) {
    let h = cx.t.usize(1, n.clamp(1, 300));
    let w = (n / h).clamp(1, 65535);
    let w = match cx.t.draw(4) {
        0 => (w - 1).max(1),
        1 => (w + 1).min(65535),
        _ => w,
    };
    if cx.t.flag() { (w as u16, h as u16) } else { (h as u16, w as u16) }
}

fn frame(w: u16, h: u16, v: &mut Vec<RBlock>) {
    let n = w as usize * h as usize;
    v.push(RBlock::Desc { l: 0, t: 0, w, h, flags: 0 });
    let px: Vec<u8> = (0..n).map(|i| (i % 3) as u8).collect();
    v.push(RBlock::Image(simple_image(&px)));
}

fn file(sw: u16, sh: u16) -> Vec<RBlock> {
    vec![
        RBlock::Header(*b"89a"),
        RBlock::Screen { w: sw, h: sh, flags: 0x81, bg: 0, aspect: 0 },
        RBlock::Gct(vec![7; 12]),
    ]
}

fn judge(what: &str, items: usize, err: Option<String>, want_items: usize, too_large: bool) -> R {
    let want = if too_large { Some("TooLargeImage".to_string()) } else { None };
    if items != want_items || err != want {
        return Err(format!("{what}: {items} items and {err:?} instead of {want_items} and {want:?}"));
    }
    Ok(())
}

/// Once in a while a limit of more than 16 or 32 bits, with the same low bits
fn huge(cx: &mut Cx, limit: usize) -> usize {
    if !cx.t.chance(1, 8) {
        return limit;
    }
    cx.class("huge limit");
    match cx.t.draw(7) {
        0 => limit + (1 << 16),
        1 => limit + (1 << 31),
        2 => limit + (1 << 32),
        3 => limit + (1 << 63),
        4 => usize::MAX,
        5 => u32::MAX as usize,
        6 => 1 << 32,
        _ => 1 << 63,
    }
}

/// Frames near the limit
fn limit_case(cx: &mut Cx) -> R {
    let limit = match cx.t.weighted(&[1, 3, 3, 1]) {
        0 => cx.t.usize(0, 3),
        1 => cx.t.usize(1, 400),
        2 => {
            let a = cx.t.usize(1, 70);
            a * cx.t.usize(1, 70)
        }
        _ => cx.t.usize(1, 30_000),
    };
    let none = cx.t.chance(1, 6);
    let n = cx.t.usize(1, 3);
    let dims: Vec<(u16, u16)> = (0..n).map(|_| near(cx, limit.max(1))).collect();
    let limit = huge(cx, limit);
    let area = |d: &(u16, u16)| d.0 as usize * d.1 as usize;
    // a screen which holds the frames (for steps)
    let sw = dims.iter().map(|d| d.0).max().unwrap();
    let sh = dims.iter().map(|d| d.1).max().unwrap();
    let mut m = file(sw, sh);
    let head = m.len();
    for d in &dims {
        if cx.t.chance(1, 3) {
            m.push(RBlock::Gce { flags: 0, delay: 1, tidx: 0 });
        }
        frame(d.0, d.1, &mut m);
    }
    m.push(RBlock::Trailer);
    let (bytes, _) = write(&m);
    let max = if none { Some(None) } else { Some(Some(limit)) };
    let bad = if none { None } else { dims.iter().position(|d| area(d) > limit) };
    cx.key((none, limit, &dims));
    cx.class(if none { "kind:no limit" } else { "kind:limit" });
    cx.class_if(dims.iter().any(|d| area(d) == limit), "at limit");
    cx.class_if(dims.iter().any(|d| Some(area(d)) == limit.checked_add(1)), "just above");
    cx.nontrivial(dims.iter().any(|d| area(d).abs_diff(limit) <= 2));
    cx.sample(|| format!("limit {limit} none {none} frames {dims:?}"));
    let f = frames(feed(&bytes), bytes.len(), max);
    judge("frames", f.items.len(), f.err_name(), bad.unwrap_or(n), bad.is_some())?;
    let b = blocks(feed(&bytes), bytes.len(), max);
    let images = b.items.iter().filter(|b| matches!(b, RBlock::Image(_))).count();
    judge("blocks", images, b.err_name(), bad.unwrap_or(n), bad.is_some())?;
    if b.items.len() < head {
        return Err("blocks before the first frame missing".into());
    }
    let s = steps(feed(&bytes), bytes.len(), max);
    let screen_bad = !none && sw as usize * sh as usize > limit;
    if screen_bad {
        judge("steps", s.items.len(), s.err_name(), 0, true)?;
    } else {
        judge("steps", s.items.len(), s.err_name(), bad.unwrap_or(n), bad.is_some())?;
    }
    cx.exec();
    Ok(())
}

/// Screens near the limit with a small frame
fn screen_case(cx: &mut Cx) -> R {
    cx.class("kind:screen");
    let limit = cx.t.usize(1, 5000);
    let none = cx.t.chance(1, 6);
    let (sw, sh) = near(cx, limit);
    let limit = huge(cx, limit);
    let mut m = file(sw, sh);
    frame(1, 1, &mut m);
    m.push(RBlock::Trailer);
    let (bytes, _) = write(&m);
    let area = sw as usize * sh as usize;
    cx.key((none, limit, sw, sh));
    cx.nontrivial(area.abs_diff(limit) <= 2);
    let max = if none { Some(None) } else { Some(Some(limit)) };
    let bad = !none && area > limit;
    let s = steps(feed(&bytes), bytes.len(), max);
    judge("steps", s.items.len(), s.err_name(), if bad { 0 } else { 1 }, bad)?;
    let s = looping(feed(&bytes), 5, max);
    judge("looping", s.items.len(), s.err_name(), if bad { 0 } else { 1 }, bad)?;
    // the screen does not matter to frames
    let f = frames(feed(&bytes), bytes.len(), max);
    judge("frames", f.items.len(), f.err_name(), 1, false)
}

fn peak(bytes: &[u8], limit: usize, per_byte: usize) -> Result<(), String> {
    let max = 16 * limit + (4 << 20) + per_byte * bytes.len();
    for level in 0..3 {
        let (n, p) = mem::peak_of(|| {
            let d = dec(feed(bytes), Some(Some(limit)));
            match level {
                0 => d.into_blocks().take(bytes.len() + 4).take_while(|b| b.is_ok()).count(),
                1 => d.into_frames().take(bytes.len() + 4).take_while(|b| b.is_ok()).count(),
                _ => d.into_steps().take(bytes.len() + 4).take_while(|b| b.is_ok()).count(),
            }
        });
        if p > max {
            return Err(format!(
                "decoding {} bytes as {} with limit {limit} used {p} bytes ({n} items), more than {max}",
                bytes.len(),
                ["blocks", "frames", "steps"][level]
            ));
        }
    }
    Ok(())
}

/// Data which expand far beyond the declared size
fn bomb(cx: &mut Cx) -> R {
    cx.class("kind:bomb");
    cx.nontrivial(true);
    let limit = cx.t.pick(&[0usize, 1, 1000, 20_000, 300_000]);
    let n_frames = cx.t.usize(1, 2);
    let mut o = vec![];
    for b in file(8, 8) {
        write_block(&mut o, &b);
    }
    let min = cx.t.usize(2, 8) as u8;
    let n = if cx.t.chance(1, 10) { cx.t.usize(20_000, 60_000) } else { cx.t.usize(6_000, 12_000) };
    for _ in 0..n_frames {
        let (w, h) = if limit == 0 { (0, 0) } else { near(cx, limit.min(64)) };
        let (w, h) = if w as usize * h as usize > limit { (1, 1) } else { (w, h) };
        write_block(&mut o, &RBlock::Desc { l: 0, t: 0, w, h, flags: 0 });
        // every code is the newest, so each is one longer than the one before
        let mut bw = BitW::new();
        let m = min as u32;
        let (mut size, mut width) = ((1u32 << m) + 2, m + 1);
        bw.put(1 << m, width);
        bw.put(0, width);
        for _ in 0..n {
            let code = size.min(4095);
            bw.put(code, width);
            if size < 4096 {
                size += 1;
            }
            if size == 1 << width && width < 12 {
                width += 1;
            }
        }
        bw.put((1 << m) + 1, width);
        o.push(min);
        for c in plain_split(&bw.finish(0)) {
            o.push(c.len() as u8);
            o.extend(c);
        }
        o.push(0);
    }
    o.push(0x3B);
    cx.key((limit, min, n, n_frames));
    cx.sample(|| format!("{} bytes which expand to about {} MB, limit {limit}", o.len(), n / 250));
    peak(&o, limit, 8)
}

/// A long animation is not kept
fn many(cx: &mut Cx) -> R {
    let how = Many {
        side: cx.t.usize(100, 300) as u16,
        n: cx.t.usize(300, 800),
        tiny: cx.t.flag(),
        // the same flags for all controls, or any
        flags: if cx.t.flag() { Some(cx.t.byte()) } else { None },
        every: cx.t.usize(1, 3),
        local: cx.t.chance(1, 3),
        exts: cx.t.chance(1, 3),
    };
    many_frames(cx, how)
}

#[derive(Debug)]
struct Many {
    side: u16,
    n: usize,
    tiny: bool,
    flags: Option<u8>,
    every: usize,
    local: bool,
    exts: bool,
}

fn many_frames(cx: &mut Cx, how: Many) -> R {
    cx.class("kind:many frames");
    cx.nontrivial(true);
    let Many { side, n, .. } = how;
    let fs = if how.tiny { 1 } else { side };
    let mut m = file(side, side);
    let px = vec![cx.t.draw(3) as u8; fs as usize * fs as usize];
    let img = simple_image(&px);
    for i in 0..n {
        if i % how.every == 0 {
            let flags = how.flags.unwrap_or_else(|| cx.t.byte());
            m.push(RBlock::Gce { flags, delay: (i % 3) as u16, tidx: 9 });
        }
        if how.exts {
            m.push(RBlock::Comment(vec![b"x".to_vec()]));
            m.push(RBlock::Unknown(0x33, vec![]));
        }
        let flags = if how.local { 0x80 } else { 0 };
        let p = if how.tiny { i as u16 % side } else { 0 };
        m.push(RBlock::Desc { l: p, t: p, w: fs, h: fs, flags });
        if how.local {
            m.push(RBlock::Lct(vec![5; 6]));
        }
        m.push(RBlock::Image(img.clone()));
    }
    m.push(RBlock::Trailer);
    let (bytes, _) = write(&m);
    cx.key(&bytes);
    cx.sample(|| format!("{how:?} in {} bytes", bytes.len()));
    peak(&bytes, side as usize * side as usize, 8)
}

/// The default limit, no limit, and the largest sizes
fn enum_n(_: Tier) -> u64 {
    24 + 32
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    let default = 1usize << 25;
    cx.key(i);
    cx.nontrivial(true);
    if i >= 24 {
        // every disposal method and transparency on every frame
        let i = i - 24;
        let flags = Some(((i % 8) << 2 | (i / 8) % 2) as u8);
        let how = Many { side: 350, n: 250, tiny: i < 16, flags, every: 1, local: i % 3 == 0, exts: i % 5 == 0 };
        return many_frames(cx, how);
    }
    let sizes: [(u16, u16); 8] =
        [(8192, 4096), (8192, 4097), (65535, 512), (65535, 513), (512, 65535), (5792, 5793), (5793, 5793), (65535, 65535)];
    let d = sizes[(i % 8) as usize];
    let area = d.0 as usize * d.1 as usize;
    let bad = area > default;
    match i / 8 {
        // frames, without data
        0 => {
            for (max, bad) in [(None, bad), (Some(None), false)] {
                if area > 1 << 26 && !bad {
                    // would have to reserve gigabytes
                    continue;
                }
                let mut m = file(4, 4);
                m.push(RBlock::Desc { l: 0, t: 0, w: d.0, h: d.1, flags: 0 });
                m.push(RBlock::Image(simple_image(&[])));
                m.push(RBlock::Trailer);
                let (bytes, _) = write(&m);
                let want = if bad { "TooLargeImage" } else { "IncompleteImageData" };
                let b = blocks(feed(&bytes), bytes.len(), max);
                if b.err_name().as_deref() != Some(want) {
                    return Err(format!("blocks of {d:?} with {max:?}: {:?} instead of {want}", b.err_name()));
                }
                let f = frames(feed(&bytes), bytes.len(), max);
                if f.err_name().as_deref() != Some(want) {
                    return Err(format!("frames of {d:?} with {max:?}: {:?} instead of {want}", f.err_name()));
                }
            }
            Ok(())
        }
        // screens
        1 => {
            for (max, bad) in [(None, bad), (Some(None), false)] {
                if area > 1 << 26 && !bad {
                    continue;
                }
                let mut m = file(d.0, d.1);
                frame(1, 1, &mut m);
                m.push(RBlock::Trailer);
                let (bytes, _) = write(&m);
                let mut it = dec(feed(&bytes), max).into_steps();
                match (it.next(), bad) {
                    (Some(Ok(_)), false) => {}
                    (Some(Err(gift::Error::TooLargeImage)), true) => {}
                    (Some(Err(e)), _) => return Err(format!("screen {d:?} with {max:?}: {}", err_name(&e))),
                    (Some(Ok(_)), true) => return Err(format!("screen {d:?} with {max:?} accepted")),
                    (None, _) => return Err(format!("screen {d:?} with {max:?}: no step")),
                }
            }
            Ok(())
        }
        // whole images
        _ => {
            if bad {
                return Ok(());
            }
            let mut m = file(1, 1);
            m.push(RBlock::Desc { l: 0, t: 0, w: d.0, h: d.1, flags: 0 });
            m.push(RBlock::Image(simple_image(&vec![1; area])));
            m.push(RBlock::Trailer);
            let (bytes, _) = write(&m);
            let n = dec(feed(&bytes), None).into_frames().map(|f| f.map(|f| f.image_data.data().len())).collect::<Result<Vec<_>, _>>();
            match n {
                Ok(v) if v == [area] => Ok(()),
                Ok(v) => Err(format!("image {d:?}: frames of {v:?} pixels")),
                Err(e) => Err(format!("image {d:?} at the default limit: {}", err_name(&e))),
            }
        }
    }
}
