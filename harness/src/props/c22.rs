//! C22: effort grows in proportion to the data.
use super::common::*;
use crate::engine::*;
use crate::generate::*;
use crate::io::Sink;
use crate::mem;
use crate::refgif::*;
use crate::tape::Rng;
use crate::view::*;
use gift::Encoder;

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        level: "exploration",
        rule: "files of 22 kinds (long images, many sub-blocks, extensions, frames, tables, surplus data) are made in a small and a 64 \
               times larger size and decoded and encoded at each level; CPU time may grow by 4 times, the total \
               of memory requested by twice as much as the size; random files are decoded and encoded while the total of memory \
               requested is compared with a fixed multiple of their bytes, pixels and images; non-trivial: 2 or more \
               images or 1,000 or more bytes; distinct by file bytes",
        assumptions: &[
            "a linear procedure does not become 4 times slower per byte when data are 64 times larger",
            "the fixed multiple for memory requested is 64 bytes per byte, 32 bytes per pixel and 200,000 bytes per image",
        ],
        quick: 120_000,
        thorough: 720_000,
        run,
        enum_n,
        enum_run,
        must: &["decode", "encode", "growth"],
    }
}

// ---------------------------------------------------------------- growth

const KINDS: u64 = 22;

fn noise(r: &mut Rng, n: usize, top: u64) -> Vec<u8> {
    (0..n).map(|_| r.upto(top) as u8).collect()
}

fn frame(v: &mut Vec<RBlock>, w: usize, h: usize, flags: u8, img: RImage) {
    v.push(RBlock::Desc { l: 0, t: 0, w: w as u16, h: h as u16, flags });
    if flags & 0x80 != 0 {
        v.push(RBlock::Lct(vec![flags; 3 * table_len(flags)]));
    }
    v.push(RBlock::Image(img));
}

/// Dimensions of 100 n pixels
fn long(n: usize) -> (usize, usize) {
    if n > 65_535 { (200, n / 2) } else { (100, n) }
}

/// A file of a kind, of size proportional to n (about 100 n bytes or pixels)
fn file(kind: u64, n: usize) -> Vec<RBlock> {
    let mut r = Rng(kind * 77 + 1);
    let r = &mut r;
    let (sw, sh) = match kind {
        0 | 1 | 2 | 11 | 12 => long(n),
        18..=20 => (100, n / 2),
        13 => (long(n).1, long(n).0),
        _ => (4, 4),
    };
    let mut v = vec![
        RBlock::Header(*b"89a"),
        RBlock::Screen { w: sw as u16, h: sh as u16, flags: 0x87, bg: 0, aspect: 0 },
        RBlock::Gct(noise(r, 768, 255)),
    ];
    let area = sw * sh;
    let parts = |r: &mut Rng, n: usize, len: usize| -> Vec<Vec<u8>> { (0..n).map(|_| noise(r, len, 255)).collect() };
    match kind {
        // images: noise, all the same, in small pieces
        0 => frame(&mut v, sw, sh, 0, simple_image(&noise(r, area, 255))),
        1 => frame(&mut v, sw, sh, 0, simple_image(&vec![3; area])),
        2 => {
            let px = noise(r, area, 15);
            let (data, _) = lzw_encode(&px, &LzwPlan::greedy(4), r);
            let chunks = data.iter().map(|b| vec![*b]).collect();
            frame(&mut v, sw, sh, 0, RImage { pixels: px, min: 4, chunks });
        }
        // extensions of many parts
        3 => v.push(RBlock::Comment(parts(r, n / 2, 255))),
        4 => v.push(RBlock::Comment(parts(r, 10 * n, 1))),
        5 => v.push(RBlock::App(parts(r, n / 2, 255))),
        6 => v.push(RBlock::PlainText(parts(r, 10 * n, 1))),
        7 => v.push(RBlock::Unknown(0x33, parts(r, 10 * n, 1))),
        // many extensions
        8 => {
            for _ in 0..10 * n {
                v.push(RBlock::Comment(parts(r, 1, 3)));
            }
        }
        9 => {
            for k in 0..5 * n {
                v.push(RBlock::Unknown(k as u8 & 0x7E, parts(r, 1, 3)));
                v.push(RBlock::App(vec![b"NETSCAPE2.0".to_vec(), vec![1, k as u8, 1]]));
            }
        }
        // many frames
        10 | 14 | 15 => {
            for k in 0..n {
                let disposal = [1, 2, 3][k % 3];
                v.push(RBlock::Gce { flags: disposal << 2, delay: 1, tidx: 0 });
                let px = noise(r, 4, 1);
                let flags = if kind == 14 { 0x80 } else { 0 };
                frame(&mut v, 2, 2, flags, simple_image(&px));
                if kind == 15 {
                    v.push(RBlock::Comment(parts(r, 2, 5)));
                }
            }
        }
        // the dictionary stays full
        11 => {
            let px = noise(r, area, 255);
            let mut plan = LzwPlan::greedy(8);
            plan.full_delay = None;
            let (data, _) = lzw_encode(&px, &plan, r);
            frame(&mut v, sw, sh, 0, RImage { pixels: px, min: 8, chunks: plain_split(&data) });
        }
        12 | 13 => frame(&mut v, sw, sh, 0x40, simple_image(&noise(r, area, 1))),
        // more sub-blocks after the end code
        16 => {
            let mut i = simple_image(&[1; 16]);
            i.chunks.extend(parts(r, n / 2, 255));
            frame(&mut v, 4, 4, 0, i);
        }
        // more pixels than the image has
        17 | 18 | 19 => {
            let px = noise(r, 100 * n, 3);
            let mut i = simple_image(&px);
            if kind == 19 {
                i.chunks = i.chunks.concat().iter().map(|b| vec![*b]).collect();
            }
            i.pixels.truncate(area);
            frame(&mut v, sw, sh, 0, i);
        }
        // a long image and more sub-blocks after the end code
        20 => {
            let mut i = simple_image(&noise(r, area, 3));
            i.chunks.extend(parts(r, n / 4, 255));
            frame(&mut v, sw, sh, 0, i);
        }
        // a clear code before each pixel
        _ => {
            let mut w = BitW::new();
            for _ in 0..n {
                w.put(16, 5);
                w.put(r.upto(15) as u32, 5);
            }
            w.put(17, 5);
            frame(&mut v, 4, 4, 0, RImage { pixels: vec![0; 16], min: 4, chunks: plain_split(&w.finish(0)) });
        }
    }
    frame(&mut v, 1, 1, 0, simple_image(&[1]));
    v.push(RBlock::Trailer);
    v
}

fn cpu_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

/// Levels: decoding to blocks, frames, steps and looping steps; encoding
/// blocks, frames and steps
const LEVELS: u64 = 7;
const NAMES: [&str; 7] =
    ["decoding blocks", "decoding frames", "decoding steps", "decoding a loop", "encoding blocks", "encoding frames", "encoding steps"];

/// Do something; return CPU time and bytes requested
fn effort(level: u64, kind: u64, n: usize) -> Option<(u64, u64)> {
    let m = if level == 6 { vec![] } else { file(kind, n) };
    let timed = |f: &mut dyn FnMut()| {
        let t = cpu_ns();
        let (_, a) = mem::total_of(&mut *f);
        Some((cpu_ns() - t, a))
    };
    match level {
        0..=3 => {
            let (b, _) = write(&m);
            let b = &b[..];
            match level {
                0 => timed(&mut || {
                    let _ = dec(b, None).into_blocks().map(|b| b.is_ok()).count();
                }),
                1 => timed(&mut || {
                    let _ = dec(b, None).into_frames().map(|b| b.is_ok()).count();
                }),
                2 => timed(&mut || {
                    let _ = dec(b, None).into_steps().map(|b| b.is_ok()).count();
                }),
                _ => timed(&mut || {
                    let _ = dec(b, None).into_iter().take(2 * n).map(|b| b.is_ok()).count();
                }),
            }
        }
        // what comes after the image is lost here
        4 | 5 if kind >= 16 => None,
        4 => {
            let v: Vec<_> = m.iter().map(to_gift).collect();
            let mut v = Some(v);
            timed(&mut || {
                let mut out = Vec::new();
                let mut e = Encoder::new(&mut out).into_block_enc();
                for b in v.take().unwrap() {
                    let _ = e.encode(b);
                }
            })
        }
        5 => {
            let (p, f) = group(&m);
            let p = preamble_to_gift(&p);
            let f: Vec<_> = f.iter().map(frame_to_gift).collect();
            timed(&mut || {
                let mut out = Vec::new();
                let mut e = Encoder::new(&mut out).into_frame_enc();
                let _ = e.encode_preamble(&p);
                for f in &f {
                    let _ = e.encode_frame(f);
                }
                let _ = e.encode_trailer();
            })
        }
        _ => {
            // a long sequence of steps, or large ones; palettes alike or not
            let (w, h, k) = match kind {
                0 => (long(n).0, long(n).1, 1),
                1 => (long(n).1, long(n).0, 2),
                2 | 3 => (2, 2, n / 8),
                4 => (10, 10, n / 8),
                _ => return None,
            };
            let mut r = Rng(kind);
            let steps: Vec<_> = (0..k)
                .map(|i| {
                    let n_pal = if kind == 3 { 2 + i % 200 } else { 256 };
                    StepM {
                        w: w as u32,
                        h: h as u32,
                        px: noise(&mut r, w * h, n_pal.min(256) as u64 - 1),
                        pal: (0..n_pal).map(|j| [j as u8, (j + i * (kind == 4) as usize) as u8, 0]).collect(),
                        delay: Some(Some(i as u16)),
                        disp: None,
                        trans: None,
                        order: 0,
                    }
                    .to_gift()
                })
                .collect();
            timed(&mut || {
                let mut out = Vec::new();
                let mut e = Encoder::new(&mut out).into_step_enc();
                for s in &steps {
                    let _ = e.encode_step(s);
                }
            })
        }
    }
}

/// Enumerated: every kind of file at every level
fn enum_n(_: Tier) -> u64 {
    KINDS * LEVELS
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    let (kind, level) = (i % KINDS, i / KINDS);
    let (small, times) = (2_000usize, 64);
    cx.key(i);
    cx.nontrivial(true);
    let Some(mut a) = effort(level, kind, small) else { return Ok(()) };
    cx.class("growth");
    let mut why = String::new();
    // time is measured again before it counts
    for _ in 0..4 {
        let Some(b) = effort(level, kind, small * times) else { return Ok(()) };
        let Some(c) = effort(level, kind, small) else { return Ok(()) };
        a = (a.0.max(c.0), a.1.max(c.1));
        let k = times as u64 * 4;
        let k_mem = times as u64 * 2;
        let what = NAMES[level as usize];
        cx.sample(|| format!("{what}, kind {kind}: {} us, {} bytes; {times} times larger: {} us, {} bytes", a.0 / 1000, a.1, b.0 / 1000, b.1));
        if b.1 > k_mem * a.1 + 1_000_000 {
            return Err(format!("{what}, kind {kind}: requests {} bytes of memory, and {} for data {times} times larger", a.1, b.1));
        }
        if b.0 <= k * a.0 + 200_000_000 {
            return Ok(());
        }
        why = format!("{what}, kind {kind}: takes {} us of CPU time, and {} us for data {times} times larger", a.0 / 1000, b.0 / 1000);
    }
    Err(why)
}

// ---------------------------------------------------------------- random

fn allowed(bytes: usize, pixels: usize, images: usize) -> u64 {
    64 * bytes as u64 + 32 * pixels as u64 + 200_000 * (images as u64 + 1)
}

fn run(cx: &mut Cx) -> R {
    let encode = cx.t.flag();
    if encode && cx.t.chance(1, 3) {
        cx.class("encode");
        let a = draw_anim(cx.t, 6, 4000);
        let steps: Vec<_> = a.steps.iter().map(|s| s.to_gift()).collect();
        let area = a.steps.iter().map(|s| s.px.len()).sum::<usize>();
        cx.key(a.steps.iter().map(|s| &s.px).collect::<Vec<_>>());
        cx.nontrivial(steps.len() >= 2);
        let (n, total) = mem::total_of(|| {
            let sink = Sink::plain();
            let mut e = Encoder::new(sink.clone()).into_step_enc();
            for s in &steps {
                let _ = e.encode_step(s);
            }
            drop(e);
            sink.len()
        });
        return judge("encoding steps", total, n, area, steps.len());
    }
    let o = if cx.t.flag() { GifOpts::blocks() } else { GifOpts::steps() };
    let m = gif(cx.t, &GifOpts { lzw: !encode, ..o });
    let (b, _) = write(&m);
    cx.input(&b);
    cx.sample(|| summary(&m));
    let (pre, f) = group(&m);
    let pixels = f.iter().map(|f| f.pixels.len()).sum::<usize>();
    cx.nontrivial(f.len() >= 2 || b.len() >= 1000);
    if encode {
        cx.class("encode");
        let v: Vec<_> = m.iter().map(to_gift).collect();
        let (n, total) = mem::total_of(|| {
            let sink = Sink::plain();
            let mut e = Encoder::new(sink.clone()).into_block_enc();
            for b in v {
                let _ = e.encode(b);
            }
            sink.len()
        });
        return judge("encoding blocks", total, n.max(b.len()), pixels, f.len());
    }
    cx.class("decode");
    let (_, t) = mem::total_of(|| dec(&b[..], None).into_blocks().map(|b| b.is_ok()).count());
    judge("decoding blocks", t, b.len(), pixels, f.len())?;
    let (_, t) = mem::total_of(|| dec(&b[..], None).into_frames().map(|b| b.is_ok()).count());
    judge("decoding frames", t, b.len(), pixels, f.len())?;
    let screen = pre.screen.0 as usize * pre.screen.1 as usize;
    if screen <= 1 << 16 {
        let (_, t) = mem::total_of(|| dec(&b[..], None).into_steps().map(|b| b.is_ok()).count());
        judge("decoding steps", t, b.len(), pixels + screen * (f.len() + 1), f.len())?;
    }
    Ok(())
}

fn judge(what: &str, total: u64, bytes: usize, pixels: usize, images: usize) -> R {
    let max = allowed(bytes, pixels, images);
    if total > max {
        return Err(format!("{what} of {bytes} bytes, {pixels} pixels and {images} images requests {total} bytes of memory, more than {max}"));
    }
    Ok(())
}
