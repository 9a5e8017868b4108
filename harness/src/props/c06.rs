//! C06: no input crashes or hangs the decoder
use crate::engine::*;
use crate::generate::*;
use crate::io::logging;
use crate::view::*;
use gift::Decoder;

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        level: "exploration",
        rule: "byte strings (random; GIF pieces in any order with valid, damaged or random LZW data; mutated files; \
               concatenations) are decoded at all four levels with several size limits, with and without logging; \
               non-trivial: the header and one more block decode; distinct by input bytes",
        assumptions: &[
            "a case which uses more than 30 s of CPU time or 2 GiB, and does so again when run alone, hangs or \
             crashes: cases need milliseconds and the size limits used allow at most 200 MB",
        ],
        quick: 4_800_000,
        thorough: 19_200_000,
        run,
        enum_n,
        enum_run,
        must: &[
            "wild:soup",
            "wild:mutated",
            "wild:random",
            "looping",
            "logging",
        ],
    }
}

fn run(cx: &mut Cx) -> R {
    let (bytes, c) = wild(cx.t);
    cx.class(c);
    let limit = match cx.t.weighted(&[6, 2, 1]) {
        0 => Some(1 << 14),
        1 => Some(cx.t.usize(0, 1000)),
        _ => Some(1 << 20),
    };
    let log = cx.t.chance(1, 10) && bytes.len() < 1500;
    all_levels(cx, &bytes, Some(limit), log)
}

/// Call an iterator to its end and a bit further
fn drain<T>(what: &str, it: &mut dyn Iterator<Item = Result<T, gift::Error>>, max: usize) -> Result<(usize, Option<String>), String> {
    let mut n = 0;
    let mut err = None;
    loop {
        match it.next() {
            None => break,
            Some(Ok(_)) => {
                n += 1;
                if n > max {
                    return Err(format!("{what} gave more than {max} items"));
                }
            }
            Some(Err(e)) => {
                // errors can be shown
                let _ = (e.to_string(), format!("{e:?}"), std::error::Error::source(&e).is_some());
                err = Some(err_name(&e));
                break;
            }
        }
    }
    // whatever it gives now, it has to return
    for _ in 0..3 {
        let _ = it.next();
    }
    Ok((n, err))
}

pub fn all_levels(cx: &mut Cx, bytes: &[u8], limit: Option<Option<usize>>, log: bool) -> R {
    cx.input(bytes);
    cx.class_if(log, "logging");
    let d = || -> Decoder<_> { dec(feed(bytes), limit) };
    let max = bound(bytes.len());
    let r = logging(log, || -> Result<_, String> {
        let b = guard("blocks", || drain("blocks", &mut d().into_blocks(), max))??;
        let f = guard("frames", || drain("frames", &mut d().into_frames(), max))??;
        guard("preamble", || {
            let mut f = d().into_frames();
            let _ = f.preamble();
            drain("frames after preamble", &mut f, max)?;
            let _ = f.preamble();
            Ok::<_, String>(())
        })??;
        let s = guard("steps", || drain("steps", &mut d().into_steps(), max))??;
        // a looping iterator may be endless
        let l = guard("looping steps", || {
            let mut it = d().into_iter();
            for i in 0..2 * s.0 + 3 {
                match it.next() {
                    None => return i,
                    Some(Err(_)) => {
                        for _ in 0..3 {
                            let _ = it.next();
                        }
                        return i;
                    }
                    _ => {}
                }
            }
            usize::MAX
        })?;
        Ok((b, f, s, l))
    });
    let (b, f, s, l) = r?;
    cx.exec();
    cx.nontrivial(b.0 >= 2);
    cx.class_if(l > s.0, "looping");
    cx.sample(|| format!("{} bytes: blocks {b:?}, frames {f:?}, steps {s:?}", bytes.len()));
    for e in [b.1, f.1, s.1].into_iter().flatten() {
        let e = e.split('(').next().unwrap().to_string();
        cx.class(format!("err:{e}"));
    }
    Ok(())
}

/// Enumerated: short inputs, and the places where the library once failed
fn enum_n(_: Tier) -> u64 {
    256 + 256 + 13 * 11 * 3 + 6 + EDGES + 7 + 6
}

fn gif_with(sw: u16, sh: u16, fw: u16, fh: u16, gct: bool, data: &[u8]) -> Vec<u8> {
    use crate::refgif::*;
    let mut o = vec![];
    write_block(&mut o, &RBlock::Header(*b"89a"));
    write_block(&mut o, &RBlock::Screen { w: sw, h: sh, flags: if gct { 0x80 } else { 0 }, bg: 0, aspect: 0 });
    if gct {
        o.extend([0; 6]);
    }
    write_block(&mut o, &RBlock::Desc { l: 0, t: 0, w: fw, h: fh, flags: 0 });
    o.extend_from_slice(data);
    o
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    let i = i as usize;
    // one byte after a screen descriptor; then once more after an image
    if i < 256 {
        let mut b = b"GIF89a\x01\0\x01\0\0\0\0".to_vec();
        b.push(i as u8);
        all_levels(cx, &b, None, true)?;
        let mut g = gif_with(1, 1, 1, 1, true, &[2, 2, 0x44, 0x01, 0]);
        g.push(i as u8);
        return all_levels(cx, &g, None, true);
    }
    let i = i - 256;
    if i < 256 {
        // each minimum code size with data which is all one bit pattern
        for pat in [0u8, 0xFF, 0x55, 0xAA, 0x24, 0x6D, i as u8] {
            let mut d = vec![i as u8];
            for _ in 0..12 {
                d.push(255);
                d.extend([pat; 255]);
            }
            d.push(0);
            d.push(0x3B);
            all_levels(cx, &gif_with(40, 30, 40, 30, true, &d), None, false)?;
        }
        return Ok(());
    }
    let i = i - 256;
    if i < 13 * 11 * 3 {
        // frame and screen sizes around zero and each other
        let dims = [0u16, 1, 2, 3, 4, 255, 256, 65535, 32768, 65534, 7];
        let (a, b, c) = (i / 33, i / 3 % 11, i % 3);
        let (sw, sh) = [(0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (3, 3), (255, 256), (65535, 1), (1, 65535), (0, 65535), (65535, 0), (4, 4)][a];
        let fw = dims[b];
        let fh = [0u16, 1, 3][c];
        let n = fw as usize * fh as usize;
        let img = crate::refgif::simple_image(&vec![0; n]);
        let mut d = vec![];
        crate::refgif::write_block(&mut d, &crate::refgif::RBlock::Image(img));
        d.push(0x3B);
        return all_levels(cx, &gif_with(sw, sh, fw, fh, true, &d), Some(Some(1 << 18)), false);
    }
    let i = i - 13 * 11 * 3;
    if i < 6 {
        // the dictionary stays full while more codes than fit in 16 bits come
        let n = 70_000usize;
        let min = [8u8, 7, 4, 2, 8, 3][i];
        let mut r = crate::tape::Rng(i as u64);
        let px: Vec<u8> = (0..n).map(|_| r.below(1 << min) as u8).collect();
        let mut plan = crate::refgif::LzwPlan::greedy(min);
        plan.full_delay = None;
        plan.literal = true;
        let (data, _) = crate::refgif::lzw_encode(&px, &plan, &mut r);
        let img = crate::refgif::RImage { pixels: vec![], min, chunks: crate::refgif::plain_split(&data) };
        let mut d = vec![];
        crate::refgif::write_block(&mut d, &crate::refgif::RBlock::Image(img));
        d.push(0x3B);
        return all_levels(cx, &gif_with(700, 100, 700, 100, true, &d), None, false);
    }
    let i = i - 6;
    if i < EDGES as usize {
        // good and bad codes where the dictionary gets full or codes wider
        let mut r = cx.t.bulk();
        let Some(e) = edge(i as u64, &mut r) else { return Ok(()) };
        let n = e.pixels.as_ref().map_or(e.before + 30, |p| p.len()) as u16;
        let mut d = vec![e.min];
        for c in e.data.chunks(255) {
            d.push(c.len() as u8);
            d.extend(c);
        }
        d.extend([0, 0x3B]);
        cx.class("dictionary edge");
        return all_levels(cx, &gif_with(n, 1, n, 1, true, &d), None, i % 16 == 0);
    }
    let i = i - EDGES as usize;
    if i >= 7 {
        // screens with more pixels than fit in 31 bits, without a limit
        let (w, h) = [(65535, 65535), (65535, 32769), (32769, 65535), (46341, 46341), (65535, 40000), (50000, 65535)][i - 7];
        cx.class("huge screen");
        let b = gif_with(w, h, 1, 1, true, &[2, 2, 0x44, 0x01, 0, 0x3B]);
        return all_levels(cx, &b, Some(None), false);
    }
    let b: Vec<u8> = match i {
        0 => vec![],
        1 => b"GIF89a".to_vec(),
        2 => b"GIF89a\x01\0\x01\0\0\0\0;".to_vec(),
        // loop forever without a frame
        3 => b"GIF89a\x01\0\x01\0\0\0\0\x21\xFF\x0BNETSCAPE2.0\x03\x01\0\0\0;".to_vec(),
        // and with a graphic control only
        4 => b"GIF89a\x01\0\x01\0\0\0\0\x21\xFF\x0BNETSCAPE2.0\x03\x01\0\0\0\x21\xF9\x04\0\0\0\0\0;".to_vec(),
        // nothing but a frame header
        5 => gif_with(1, 1, 1, 1, true, &[]),
        _ => gif_with(65535, 65535, 65535, 65535, true, &[2, 0, 0x3B]),
    };
    for k in 0..=b.len() {
        all_levels(cx, &b[..k], None, k % 2 == 0)?;
    }
    Ok(())
}
