//! C02: everything the encoders write is a conforming GIF stream
use super::common::*;
use crate::engine::*;
use crate::generate::*;
use crate::io::Sink;
use crate::refgif::*;
use crate::view::*;
use gift::Encoder;
use gift::block::*;

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        level: "exploration",
        rule: "block sequences (every block type, any field values), frames with preambles, and steps are written with \
               BlockEnc, FrameEnc and StepEnc; a strict independent reader must find the same contents; non-trivial: \
               the file has an image with 2 or more pixels or an extension; distinct by written bytes",
        assumptions: &["the strict reader in refgif.rs reads GIF89a correctly"],
        quick: 600_000,
        thorough: 2_400_000,
        run,
        enum_n,
        enum_run,
        must: &["level:blocks", "level:frames", "level:steps", "loop count", "lct", "end code complete"],
    }
}

fn run(cx: &mut Cx) -> R {
    match cx.t.weighted(&[3, 2, 2]) {
        0 => {
            let mut o = GifOpts::blocks();
            o.lzw = false;
            let m = gif(cx.t, &o);
            cx.class("level:blocks");
            classify(cx, &m);
            by_blocks(cx, &m)
        }
        1 => {
            let mut o = GifOpts::blocks();
            o.lzw = false;
            let m = gif(cx.t, &o);
            cx.class("level:frames");
            classify(cx, &m);
            by_frames(cx, &m)
        }
        _ => {
            cx.class("level:steps");
            let a = draw_anim(cx.t, 4, 5000);
            by_steps(cx, &a)
        }
    }
}

/// The application block for a loop count must come from the library
fn gift_block(b: &RBlock) -> Block {
    match b {
        RBlock::App(s) if s[0..].len() == 2 && s[0] == b"NETSCAPE2.0" => match loop_count(s) {
            Some(n) => Application::with_loop_count(n).into(),
            None => to_gift(b),
        },
        b => to_gift(b),
    }
}

fn by_blocks(cx: &mut Cx, m: &[RBlock]) -> R {
    let sink = Sink::plain();
    let mut e = Encoder::new(sink.clone()).into_block_enc();
    for b in m {
        e.encode(gift_block(b)).map_err(|e| format!("encode {}: {}", short(b), err_name(&e)))?;
    }
    drop(e);
    judge(cx, &sink.bytes(), m)
}

fn judge(cx: &mut Cx, bytes: &[u8], want: &[RBlock]) -> R {
    cx.input(bytes);
    cx.nontrivial(want.iter().any(|b| match b {
        RBlock::Image(i) => i.pixels.len() >= 2,
        RBlock::Comment(_) | RBlock::App(_) | RBlock::PlainText(_) | RBlock::Unknown(..) => true,
        _ => false,
    }));
    cx.sample(|| summary(want));
    let p = parse(bytes).map_err(|e| format!("not a conforming file: {e}"))?;
    cmp_blocks(&p.blocks, want)?;
    for b in &p.blocks {
        if let RBlock::Image(i) = b
            && i.pixels.iter().any(|x| *x as usize >= 1 << i.min)
        {
            return Err(format!("minimum code size {} too small", i.min));
        }
    }
    check_ends(cx, &p)
}

fn by_frames(cx: &mut Cx, m: &[RBlock]) -> R {
    let (pre, frames) = group(m);
    let sink = Sink::plain();
    let mut e = Encoder::new(sink.clone()).into_frame_enc();
    let mut gp = preamble_to_gift(&pre);
    let mut want = vec![RBlock::Header(pre.version)];
    let (w, h, flags, bg, aspect) = pre.screen;
    want.push(RBlock::Screen { w, h, flags, bg, aspect });
    if let Some(c) = &pre.gct {
        want.push(RBlock::Gct(c.clone()));
    }
    if let Some((_, n)) = pre.looping {
        gp.loop_count_ext = Some(Application::with_loop_count(n));
        want.push(RBlock::App(vec![b"NETSCAPE2.0".to_vec(), vec![1, n as u8, (n >> 8) as u8]]));
    }
    for c in &pre.comments {
        want.push(RBlock::Comment(c.clone()));
    }
    e.encode_preamble(&gp).map_err(|e| format!("preamble: {}", err_name(&e)))?;
    for f in &frames {
        e.encode_frame(&frame_to_gift(f)).map_err(|e| format!("frame: {}", err_name(&e)))?;
        if let Some((flags, delay, tidx)) = f.gce {
            want.push(RBlock::Gce { flags, delay, tidx });
        }
        want.push(RBlock::Desc { l: f.l, t: f.t, w: f.w, h: f.h, flags: f.flags });
        if let Some(c) = &f.lct {
            want.push(RBlock::Lct(c.clone()));
        }
        want.push(RBlock::Image(RImage { pixels: f.pixels.clone(), min: 0, chunks: vec![] }));
    }
    e.encode_trailer().map_err(|e| format!("trailer: {}", err_name(&e)))?;
    want.push(RBlock::Trailer);
    drop(e);
    judge(cx, &sink.bytes(), &want)
}

fn by_steps(cx: &mut Cx, a: &AnimM) -> R {
    let sink = Sink::plain();
    let mut e = Encoder::new(sink.clone()).into_step_enc();
    if let Some(n) = a.loops {
        e = e.with_loop_count(n);
    }
    if let Some(g) = &a.global {
        e = e.with_global_color_table(&palette(g));
    }
    for s in &a.steps {
        e.encode_step(&s.to_gift()).map_err(|e| format!("step: {}", err_name(&e)))?;
    }
    drop(e);
    let bytes = sink.bytes();
    cx.input(&bytes);
    cx.nontrivial(a.steps.len() > 1 || a.steps[0].px.len() > 1);
    cx.sample(|| {
        let s = &a.steps[0];
        format!("{} steps {}x{} palette {} loops {:?}", a.steps.len(), s.w, s.h, s.pal.len(), a.loops)
    });
    let p = parse(&bytes).map_err(|e| format!("not a conforming file: {e}"))?;
    let (pre, frames) = group(&p.blocks);
    if (pre.screen.0 as u32, pre.screen.1 as u32) != (a.steps[0].w, a.steps[0].h) {
        return Err(format!("screen {:?}", pre.screen));
    }
    if pre.looping.as_ref().map(|l| l.1) != a.loops {
        return Err(format!("loop count {:?} instead of {:?}", pre.looping, a.loops));
    }
    if frames.len() != a.steps.len() {
        return Err(format!("{} frames for {} steps", frames.len(), a.steps.len()));
    }
    for (i, (f, s)) in frames.iter().zip(&a.steps).enumerate() {
        let Some(tab) = f.lct.as_ref().or(pre.gct.as_ref()) else {
            return Err("no colour table".into());
        };
        for (k, c) in s.colors().iter().enumerate() {
            if tab.get(3 * k..3 * k + 3) != Some(&c[..]) {
                return Err(format!("frame {i}: colour {k} is not {c:?}"));
            }
        }
        if f.pixels != s.px || (f.l, f.t, f.w as u32, f.h as u32) != (0, 0, s.w, s.h) {
            return Err(format!("frame {i}: wrong pixels or position"));
        }
        if f.flags & 0x40 != 0 {
            return Err(format!("frame {i}: interlaced"));
        }
        if (f.delay(), f.disposal(), f.trans()) != (s.delay(), s.disposal(), s.trans()) {
            return Err(format!("frame {i}: graphic control {:?} for {:?}", f.gce, (s.delay, s.disp, s.trans)));
        }
    }
    check_ends(cx, &p)
}

/// All loop counts; all sub-block lengths of each kind of extension; large
/// files
fn enum_n(_: Tier) -> u64 {
    256 + 255 + 2 * BIG
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    if i < 256 {
        for lo in 0..=255u16 {
            let n = ((i as u16) << 8) | lo;
            let a = Application::with_loop_count(n);
            let sink = Sink::plain();
            let mut e = Encoder::new(sink.clone()).into_block_enc();
            e.encode(a).map_err(|e| err_name(&e))?;
            let mut want = vec![0x21, 0xFF, 11];
            want.extend_from_slice(b"NETSCAPE2.0");
            want.extend_from_slice(&[3, 1, n as u8, (n >> 8) as u8, 0]);
            if sink.bytes() != want {
                return Err(format!("loop count {n} written as {:02x?}", sink.bytes()));
            }
        }
        cx.class("loop count");
        cx.key(i);
        cx.nontrivial(true);
        return Ok(());
    }
    if i >= 256 + 255 {
        let i = i - 256 - 255;
        let mut r = cx.t.bulk();
        let m = big(i / 2, &mut r);
        cx.class("large file");
        return if i % 2 == 0 { by_blocks(cx, &m) } else { by_frames(cx, &m) };
    }
    let n = (i - 255) as usize;
    let d: Vec<u8> = (0..n).map(|k| (k * 7 + n) as u8).collect();
    let two = vec![d.clone(), vec![n as u8], d.clone()];
    let m = vec![
        RBlock::Header(*b"89a"),
        RBlock::Screen { w: n as u16, h: 1, flags: 0, bg: 0, aspect: 0 },
        RBlock::Comment(two.clone()),
        RBlock::PlainText(two.clone()),
        RBlock::App(two.clone()),
        RBlock::Unknown(n as u8 & 0x7E, two),
        RBlock::Trailer,
    ];
    by_blocks(cx, &m)
}
