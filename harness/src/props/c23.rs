//! C23: decoded animations can be written again without loss
use crate::engine::*;
use crate::generate::*;
use crate::io::Sink;
use crate::refgif::*;
use crate::view::*;
use gift::Encoder;
use gift::block::{Frame, Preamble};

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        level: "exploration",
        rule: "files (well-formed ones with any tables, controls, extensions and LZW streams, or mutated and sloppy \
               ones which decode) are decoded to preamble and frames, these very values are given to the frame \
               encoder, and preamble, frames, steps and playback of the written file are compared with the original's; \
               writing what was read from the written file must give the same bytes; non-trivial: 2 or more frames or \
               a comment, loop count or local table; distinct by file bytes",
        assumptions: &[],
        quick: 600_000,
        thorough: 2_400_000,
        run,
        enum_n,
        enum_run,
        must: &[
            "well-formed",
            "animation",
            "sloppy with frames",
            "loop count",
            "comment",
            "lct",
            "playback",
            "step error",
            "large file",
            "dropped blocks",
            "shared table",
        ],
    }
}

/// Image size limit for steps, the same on both sides
const LIMIT: Option<Option<usize>> = Some(Some(1 << 20));

fn read(bytes: &[u8]) -> Result<(Preamble, Vec<Frame>), String> {
    let mut f = dec(feed(bytes), Some(Some(1 << 22))).into_frames();
    let p = match f.preamble() {
        Ok(Some(p)) => p,
        Ok(None) => return Err("no preamble".into()),
        Err(e) => return Err(format!("preamble: {}", err_name(&e))),
    };
    let s = collect(f, bound(bytes.len()), |f| f);
    match s.err_name() {
        Some(e) => Err(format!("{e} after {} frames", s.items.len())),
        None if s.overrun => Err("no end of frames".into()),
        None => Ok((p, s.items)),
    }
}

fn write_again(p: &Preamble, frames: &[Frame]) -> Result<Vec<u8>, String> {
    let sink = Sink::plain();
    let mut e = Encoder::new(sink.clone()).into_frame_enc();
    e.encode_preamble(p).map_err(|e| format!("encoding the preamble: {}", err_name(&e)))?;
    for (i, f) in frames.iter().enumerate() {
        e.encode_frame(f).map_err(|e| format!("encoding frame {i}: {}", err_name(&e)))?;
    }
    e.encode_trailer().map_err(|e| format!("encoding the trailer: {}", err_name(&e)))?;
    Ok(sink.bytes())
}

fn run(cx: &mut Cx) -> R {
    let k = cx.t.weighted(&[3, 3, 4]);
    if k == 2 {
        let (b, c) = wild(cx.t);
        cx.class(c);
        return check(cx, &b, None);
    }
    let mut o = if k == 0 { GifOpts::blocks() } else { GifOpts::steps() };
    o.frames = (1, 6);
    o.area = 3000;
    o.late_meta = cx.t.flag();
    let mut m = gif(cx.t, &o);
    if cx.t.chance(1, 3) && add_text_controls(cx.t, &mut m) {
        cx.class("text control");
    }
    classify(cx, &m);
    check(cx, &write(&m).0, Some(&m))
}

fn check(cx: &mut Cx, bytes: &[u8], m: Option<&[RBlock]>) -> R {
    cx.input(bytes);
    let (p, frames) = match read(bytes) {
        Ok(x) => x,
        Err(_) => {
            cx.class("undecodable");
            return Ok(());
        }
    };
    if frames.is_empty() {
        cx.class("no frames");
        return Ok(());
    }
    let pv = preamble_view(&p);
    let fv: Vec<RFrame> = frames.iter().map(frame_view).collect();
    if let Some(m) = m {
        cx.class("well-formed");
        cx.sample(|| summary(m));
    } else {
        cx.class("sloppy with frames");
        cx.sample(|| format!("{} bytes, {} frames, {pv:?}", bytes.len(), fv.len()));
    }
    cx.class_if(fv.len() > 1, "animation");
    cx.class_if(pv.looping.is_some(), "loop count");
    cx.class_if(!pv.comments.is_empty(), "comment");
    cx.class_if(fv.iter().any(|f| f.lct.is_some()), "lct");
    cx.nontrivial(fv.len() > 1 || pv.looping.is_some() || !pv.comments.is_empty() || fv[0].lct.is_some());
    let again = write_again(&p, &frames)?;
    cx.class_if(m.is_some_and(|m| parse(&again).is_ok_and(|a| a.blocks.len() < m.len())), "dropped blocks");
    let (p2, frames2) = read(&again).map_err(|e| format!("reading what was written: {e}"))?;
    let pv2 = preamble_view(&p2);
    if pv2 != pv {
        return Err(format!("preamble was {pv:?} and is now {pv2:?}"));
    }
    let fv2: Vec<RFrame> = frames2.iter().map(frame_view).collect();
    cmp_frames(&fv2, &fv).map_err(|e| format!("written again: {e}"))?;
    if write_again(&p2, &frames2)? != again {
        return Err("writing once more gives other bytes".into());
    }
    let (a, b) = (steps(feed(bytes), bytes.len(), LIMIT), steps(feed(&again), again.len(), LIMIT));
    cx.class_if(a.err.is_some(), "step error");
    cmp_steps(&b.items, &a.items).map_err(|e| format!("written again: {e}"))?;
    if a.err_name() != b.err_name() {
        return Err(format!("steps ended with {:?} and now end with {:?}", a.err_name(), b.err_name()));
    }
    // loop counts behind the first frame do not belong to the preamble
    if let Some(m) = m
        && a.err.is_none()
        && !m.iter().skip_while(|b| !matches!(b, RBlock::Gce { .. } | RBlock::Desc { .. })).any(is_loop)
    {
        cx.class("playback");
        let n = (2 * fv.len() + 2).min(12);
        let (a, b) = (looping(feed(bytes), n, LIMIT), looping(feed(&again), n, LIMIT));
        cmp_steps(&b.items, &a.items).map_err(|e| format!("playback: {e}"))?;
        if (a.err_name(), a.stopped) != (b.err_name(), b.stopped) {
            return Err(format!("playback ended with {:?} and now ends with {:?}", a.err_name(), b.err_name()));
        }
    }
    Ok(())
}

fn is_loop(b: &RBlock) -> bool {
    matches!(b, RBlock::App(s) if loop_count(s).is_some())
}

/// Large files; all kinds of preambles and frames around one small frame
fn enum_n(_: Tier) -> u64 {
    BIG + 8 * 4 * 4 * 2 * 8
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    if i < BIG {
        let mut r = cx.t.bulk();
        let m = big(i, &mut r);
        cx.class("large file");
        return check(cx, &write(&m).0, Some(&m));
    }
    let i = i - BIG;
    let (bits, loops, comments, v87, f) = (i % 8, i / 8 % 4, i / 32 % 4, i / 128 % 2, i / 256);
    let flags = (i as u8) << 4 & 0x70 | bits as u8 | if f & 1 == 0 { 0x80 } else { (i as u8 & 1) << 7 };
    let mut m = vec![
        RBlock::Header(if v87 == 1 { *b"87a" } else { *b"89a" }),
        RBlock::Screen { w: 4, h: 3, flags, bg: i as u8, aspect: (i >> 3) as u8 },
    ];
    if flags & 0x80 != 0 {
        m.push(RBlock::Gct((0..table_len(flags) * 3).map(|k| (k * 7 + i as usize) as u8).collect()));
    }
    for k in 0..comments {
        m.push(RBlock::Comment((0..=k as u8).map(|n| vec![b'a' + n; 1 + n as usize]).collect()));
        if k == 0 {
            m.push(RBlock::Unknown(9, vec![vec![1, 2]]));
        }
    }
    for k in 0..loops {
        let name = if k % 2 == 0 { b"NETSCAPE2.0".to_vec() } else { b"ANIMEXTS1.0".to_vec() };
        m.push(RBlock::App(vec![name, vec![1, k as u8 * 3, k as u8]]));
    }
    for n in 0..2u8 {
        if f & 2 != 0 {
            m.push(RBlock::Gce { flags: i as u8 | n, delay: (i as u16) << 5 | n as u16, tidx: i as u8 & 3 });
        }
        let fl = if f & 4 != 0 { 0x80 | 0x60 & (i as u8) | ((bits as u8 + n) & 7) } else { 0x40 * n };
        m.push(RBlock::Desc { l: n as u16, t: 0, w: 3, h: 3, flags: fl });
        if fl & 0x80 != 0 {
            m.push(RBlock::Lct((0..table_len(fl) * 3).map(|k| (k * 5 + i as usize) as u8).collect()));
        }
        m.push(RBlock::Image(simple_image(&[0, 1, 1, 0, n, 0, 1, 0, 1])));
    }
    m.push(RBlock::Trailer);
    check(cx, &write(&m).0, Some(&m))
}
