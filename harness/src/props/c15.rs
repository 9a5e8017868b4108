//! C15: encoders accept calls only in a valid order and stay consistent
use super::common::*;
use crate::engine::*;
use crate::generate::*;
use crate::io::Sink;
use crate::refgif::*;
use crate::tape::Tape;
use crate::view::*;
use gift::Encoder;

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        level: "exploration",
        rule: "sequences of up to 10 calls in any order on FrameEnc (preamble, frame, trailer) and StepEnc (steps of \
               the right, wrong and too large dimensions), judged by a model of the allowed order; the output is \
               compared with that of the accepted calls alone; non-trivial: at least one call rejected and one \
               accepted; distinct by sequence and output",
        assumptions: &[],
        quick: 1_200_000,
        thorough: 4_800_000,
        run,
        enum_n,
        enum_run,
        must: &[
            "frame encoder",
            "step encoder",
            "rejected:frame first",
            "rejected:second preamble",
            "rejected:frame after trailer",
            "rejected:second trailer",
            "rejected:preamble after trailer",
            "rejected:trailer first",
            "rejected:dimensions",
            "rejected:too wide",
            "rejected:too high",
            "no step accepted",
            "dropped without trailer",
        ],
    }
}

enum Call {
    Preamble(Box<RPreamble>),
    Frame(Box<RFrame>),
    Trailer,
}

fn pieces(t: &mut Tape) -> (RPreamble, Vec<RFrame>) {
    let m = gif(t, &GifOpts { frames: (1, 2), ..GifOpts::tiny() });
    group(&m)
}

fn run(cx: &mut Cx) -> R {
    if cx.t.flag() {
        let n = cx.t.usize(1, 10);
        let mut calls = vec![];
        for i in 0..n {
            let w = if i == 0 { [8, 2, 1] } else { [1, 4, 1] };
            let (p, f) = pieces(cx.t);
            calls.push(match cx.t.weighted(&w) {
                0 => Call::Preamble(Box::new(p)),
                1 => Call::Frame(Box::new(f[0].clone())),
                _ => Call::Trailer,
            });
        }
        frame_enc(cx, &calls)
    } else {
        let n = cx.t.usize(1, 8);
        let (w, h) = (cx.t.usize(1, 6) as u32, cx.t.usize(1, 6) as u32);
        let pals = [1usize, 2, 3, 5, 256].map(|n| draw_colors(cx.t, n));
        let mut steps = vec![];
        for _ in 0..n {
            let (w, h) = match cx.t.weighted(&[8, 2, 2, 1, 1, 1]) {
                0 => (w, h),
                1 => (h, w),
                2 => (cx.t.usize(1, 6) as u32, cx.t.usize(1, 6) as u32),
                // equal in the low 16 bits
                3 => (w + 65536, 1),
                4 => (1, h + 65536),
                _ => cx.t.pick(&[(65535, 1), (65536, 1), (1, 65536), (1, 65535)]),
            };
            let pal = cx.t.pick(&pals);
            let px = pixels(cx.t, (w * h) as usize, pal.len());
            steps.push(StepM {
                w,
                h,
                px,
                pal,
                delay: Some(Some(cx.t.word())),
                disp: Some(cx.t.draw(7) as u8),
                trans: None,
                order: 0,
            });
        }
        let loops = if cx.t.flag() { Some(cx.t.word()) } else { None };
        let global = if cx.t.chance(1, 3) { Some(cx.t.pick(&pals)) } else { None };
        step_enc(cx, &AnimM { steps, loops, global })
    }
}

fn frame_enc(cx: &mut Cx, calls: &[Call]) -> R {
    cx.class("frame encoder");
    let sink = Sink::plain();
    let alone = Sink::plain();
    let mut e = Encoder::new(sink.clone()).into_frame_enc();
    let mut a = Encoder::new(alone.clone()).into_frame_enc();
    let (mut pre, mut trailer) = (false, false);
    let (mut yes, mut no) = (0, 0);
    let mut names = String::new();
    for (i, c) in calls.iter().enumerate() {
        let before = sink.len();
        let (name, ok, why, r) = match c {
            Call::Preamble(p) => (
                "preamble",
                !pre,
                if trailer { "rejected:preamble after trailer" } else { "rejected:second preamble" },
                e.encode_preamble(&preamble_to_gift(p)),
            ),
            Call::Frame(f) => (
                "frame",
                pre && !trailer,
                if trailer { "rejected:frame after trailer" } else { "rejected:frame first" },
                e.encode_frame(&frame_to_gift(f)),
            ),
            Call::Trailer => (
                "trailer",
                pre && !trailer,
                if trailer { "rejected:second trailer" } else { "rejected:trailer first" },
                e.encode_trailer(),
            ),
        };
        names += name.get(..1).unwrap();
        let wrote = sink.len() - before;
        match (&r, ok) {
            (Ok(()), true) => {
                yes += 1;
                let r = match c {
                    Call::Preamble(p) => {
                        pre = true;
                        a.encode_preamble(&preamble_to_gift(p))
                    }
                    Call::Frame(f) => a.encode_frame(&frame_to_gift(f)),
                    Call::Trailer => {
                        trailer = true;
                        if sink.bytes()[before..] != [0x3B] {
                            return Err(format!("trailer wrote {wrote} bytes"));
                        }
                        a.encode_trailer()
                    }
                };
                if let Err(e) = r {
                    return Err(format!("call {i} ({name}) alone: {}", err_name(&e)));
                }
                if wrote == 0 {
                    return Err(format!("call {i} ({name}) accepted without writing"));
                }
            }
            (Err(e), false) => {
                no += 1;
                cx.class(why);
                if err_name(e) != "InvalidBlockSequence" {
                    return Err(format!("call {i} ({name}) after {names}: {} instead of InvalidBlockSequence", err_name(e)));
                }
                if wrote > 0 {
                    return Err(format!("call {i} ({name}) rejected but wrote {wrote} bytes"));
                }
            }
            (Ok(()), false) => return Err(format!("call {i} ({name}) after {names} accepted")),
            (Err(e), true) => return Err(format!("call {i} ({name}) after {names}: {}", err_name(e))),
        }
    }
    drop(e);
    drop(a);
    cx.class_if(pre && !trailer, "dropped without trailer");
    cx.nontrivial(yes > 0 && no > 0);
    cx.sample(|| format!("frame encoder {}: {yes} accepted", names.get(..20).unwrap_or(&names)));
    let out = sink.bytes();
    cx.key((&names, &out));
    if out != alone.bytes() {
        return Err(format!("{names}: output differs from that of the accepted calls"));
    }
    Ok(())
}

fn encoder(sink: &Sink, a: &AnimM) -> gift::encode::StepEnc<Sink> {
    let mut e = Encoder::new(sink.clone()).into_step_enc();
    if let Some(n) = a.loops {
        e = e.with_loop_count(n);
    }
    if let Some(g) = &a.global {
        e = e.with_global_color_table(&palette(g));
    }
    e
}

fn step_enc(cx: &mut Cx, a: &AnimM) -> R {
    cx.class("step encoder");
    let sink = Sink::plain();
    let alone = Sink::plain();
    let mut e = encoder(&sink, a);
    let mut al = encoder(&alone, a);
    let mut first = None;
    let (mut yes, mut no) = (0, 0);
    if !sink.is_empty() {
        return Err("bytes written before the first step".into());
    }
    for (i, s) in a.steps.iter().enumerate() {
        let before = sink.len();
        let want = if s.w > 65535 || s.h > 65535 {
            cx.class(if s.w > 65535 { "rejected:too wide" } else { "rejected:too high" });
            Some("TryFromInt")
        } else if first.is_some_and(|d| d != (s.w, s.h)) {
            cx.class("rejected:dimensions");
            Some("InvalidRasterDimensions")
        } else {
            None
        };
        let r = e.encode_step(&s.to_gift());
        let wrote = sink.len() - before;
        match (&r, want) {
            (Ok(()), None) => {
                yes += 1;
                first = Some((s.w, s.h));
                al.encode_step(&s.to_gift()).map_err(|e| format!("step {i} alone: {}", err_name(&e)))?;
                if wrote == 0 {
                    return Err(format!("step {i} accepted without writing"));
                }
            }
            (Err(e), Some(w)) => {
                no += 1;
                if err_name(e).split('(').next() != Some(w) {
                    return Err(format!("step {i} of {}x{}: {} instead of {w}", s.w, s.h, err_name(e)));
                }
                if wrote > 0 {
                    return Err(format!("step {i} of {}x{} rejected but wrote {wrote} bytes", s.w, s.h));
                }
            }
            (Ok(()), Some(w)) => return Err(format!("step {i} of {}x{} accepted, not {w}", s.w, s.h)),
            (Err(e), None) => return Err(format!("step {i} of {}x{}: {}", s.w, s.h, err_name(e))),
        }
    }
    let before = sink.len();
    drop(e);
    drop(al);
    let out = sink.bytes();
    let dims: Vec<_> = a.steps.iter().map(|s| (s.w, s.h)).collect();
    cx.key((&dims, &out));
    cx.nontrivial(yes > 0 && no > 0);
    cx.class_if(yes == 0, "no step accepted");
    cx.sample(|| format!("{} steps of {:?}: {yes} accepted", dims.len(), &dims[..dims.len().min(10)]));
    let end: &[u8] = if yes == 0 { &[] } else { &[0x3B] };
    if &out[before..] != end {
        return Err(format!("dropping the encoder after {yes} steps wrote {:02x?}", &out[before..]));
    }
    if out != alone.bytes() {
        return Err(format!("{} steps: output differs from that of the accepted steps", dims.len()));
    }
    Ok(())
}

/// Long histories: this many accepted calls, then some which are not
const LONG: [usize; 6] = [255, 256, 257, 1000, 65_536, 70_000];

/// Enumerated: long histories, all sequences of up to 6 calls on the frame
/// encoder
fn enum_n(_: Tier) -> u64 {
    2 * LONG.len() as u64 + (1..=6).map(|n| 3u64.pow(n)).sum::<u64>()
}

fn long_frames(cx: &mut Cx, n: usize) -> R {
    let (p, f) = pieces(cx.t);
    let frame = RFrame { w: 1, h: 1, pixels: vec![1], ..f[0].clone() };
    let mut calls = vec![Call::Preamble(Box::new(p.clone()))];
    calls.extend((0..n).map(|_| Call::Frame(Box::new(frame.clone()))));
    for _ in 0..2 {
        calls.push(Call::Preamble(Box::new(p.clone())));
        calls.push(Call::Frame(Box::new(frame.clone())));
        calls.push(Call::Trailer);
    }
    // rejected as often
    calls.extend((0..n).map(|_| Call::Trailer));
    calls.push(Call::Frame(Box::new(frame)));
    calls.push(Call::Preamble(Box::new(p)));
    frame_enc(cx, &calls)
}

fn long_steps(cx: &mut Cx, n: usize) -> R {
    let pal = draw_colors(cx.t, 3);
    let step = |w: u32, h: u32, k: usize| StepM {
        w,
        h,
        px: vec![(k % 3) as u8; (w * h) as usize],
        pal: pal.clone(),
        delay: Some(Some(k as u16)),
        disp: None,
        trans: None,
        order: 0,
    };
    let mut steps: Vec<StepM> = (0..n).map(|k| step(2, 1, k)).collect();
    // rejected as often
    steps.extend((0..n).map(|k| step(1, 2, k)));
    steps.push(step(2, 1, 1));
    steps.push(step(65538, 1, 1));
    steps.push(step(2, 1, 2));
    step_enc(cx, &AnimM { steps, loops: Some(3), global: None })
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    let long = LONG.len() as u64;
    if i < 2 * long {
        let n = LONG[(i / 2) as usize];
        return if i % 2 == 0 { long_frames(cx, n) } else { long_steps(cx, n) };
    }
    let i = i - 2 * long;
    let (mut n, mut k) = (1, i);
    while k >= 3u64.pow(n) {
        k -= 3u64.pow(n);
        n += 1;
    }
    let mut calls = vec![];
    for j in 0..n {
        let (p, f) = pieces(cx.t);
        calls.push(match k / 3u64.pow(j) % 3 {
            0 => Call::Preamble(Box::new(p)),
            1 => Call::Frame(Box::new(f[0].clone())),
            _ => Call::Trailer,
        });
    }
    frame_enc(cx, &calls)
}
