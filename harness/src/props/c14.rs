//! C14: animation steps survive encoding followed by decoding
use super::common::*;
use crate::engine::*;
use crate::io::Sink;
use crate::refgif::*;
use crate::view::*;
use gift::Encoder;

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        level: "exploration",
        rule: "sequences of 1..6 equally sized indexed steps (palettes of 1..600 entries, the same, nearly the same or \
               different; any delay, disposal, transparency, loop count, preset global table) are written with \
               StepEnc and read back as frames and as steps; non-trivial: 2 or more steps and 2 or more pixels; \
               distinct by file bytes",
        assumptions: &["indices lie within the step's palette and its first 256 entries"],
        quick: 540_000,
        thorough: 2_160_000,
        run,
        enum_n,
        enum_run,
        must: &["preset", "preset equal to palette", "loop count", "over 256 colours", "palette changes", "palette repeats", "transparent"],
    }
}

fn run(cx: &mut Cx) -> R {
    let a = draw_anim(cx.t, 6, 2000);
    check(cx, &a)
}

fn prefix(what: &str, table: &[u8], colors: &[[u8; 3]]) -> R {
    for (i, c) in colors.iter().take(256).enumerate() {
        match table.get(3 * i..3 * i + 3) {
            Some(t) if t == c => {}
            t => return Err(format!("{what}: colour {i} is {t:?} instead of {c:?}")),
        }
    }
    Ok(())
}

fn check(cx: &mut Cx, a: &AnimM) -> R {
    cx.class_if(a.loops.is_some(), "loop count");
    cx.class_if(a.global.is_some(), "preset");
    cx.class_if(a.global.as_ref() == Some(&a.steps[0].pal), "preset equal to palette");
    cx.class_if(a.steps.iter().any(|s| s.pal.len() > 256), "over 256 colours");
    cx.class_if(a.steps.windows(2).any(|p| p[0].pal != p[1].pal), "palette changes");
    cx.class_if(a.steps.windows(2).any(|p| p[0].pal == p[1].pal), "palette repeats");
    cx.class_if(a.steps.iter().any(|s| s.trans().is_some()), "transparent");
    cx.nontrivial(a.steps.len() > 1 && a.steps[0].px.len() > 1);
    cx.sample(|| {
        let s = &a.steps[0];
        let pals: Vec<usize> = a.steps.iter().map(|s| s.pal.len()).collect();
        format!("{} steps {}x{} palettes {pals:?} loops {:?} preset {:?}", a.steps.len(), s.w, s.h, a.loops, a.global.as_ref().map(|g| g.len()))
    });
    let sink = Sink::plain();
    let mut e = Encoder::new(sink.clone()).into_step_enc();
    // in either order; what is set last counts
    let order = cx.t.draw(1);
    let again = cx.t.chance(1, 4);
    for k in 0..2 {
        if k == order {
            if let Some(n) = a.loops {
                if again {
                    e = e.with_loop_count(!n);
                }
                e = e.with_loop_count(n);
            }
        } else if let Some(g) = &a.global {
            if again {
                e = e.with_global_color_table(&palette(&[[1, 2, 3]]));
            }
            e = e.with_global_color_table(&palette(g));
        }
    }
    cx.class_if(again, "set twice");
    cx.class_if(a.steps.len() > 256, "over 256 steps");
    for (i, s) in a.steps.iter().enumerate() {
        e.encode_step(&s.to_gift()).map_err(|e| format!("step {i}: {}", err_name(&e)))?;
    }
    drop(e);
    let bytes = sink.bytes();
    cx.input(&bytes);
    let mut fr = dec(feed(&bytes), None).into_frames();
    let pre = match fr.preamble() {
        Ok(Some(p)) => preamble_view(&p),
        Ok(None) => return Err("no preamble".into()),
        Err(e) => return Err(format!("preamble: {}", err_name(&e))),
    };
    if pre.looping.as_ref().map(|l| l.1) != a.loops {
        return Err(format!("loop count {:?} instead of {:?}", pre.looping, a.loops));
    }
    if (pre.screen.0 as u32, pre.screen.1 as u32) != (a.steps[0].w, a.steps[0].h) {
        return Err(format!("screen {:?} instead of {}x{}", pre.screen, a.steps[0].w, a.steps[0].h));
    }
    if let Some(g) = &a.global {
        match &pre.gct {
            Some(t) => prefix("preset global table", t, g)?,
            None => return Err("preset global table missing".into()),
        }
        if pre.gct.as_ref().unwrap().len() / 3 != g.len().clamp(2, 256).next_power_of_two() {
            return Err(format!("preset global table of {} entries", pre.gct.as_ref().unwrap().len() / 3));
        }
    }
    let mut got = vec![];
    for f in fr.take(a.steps.len() + 2) {
        got.push(frame_view(&f.map_err(|e| format!("frame {}: {}", got.len(), err_name(&e)))?));
    }
    if got.len() != a.steps.len() {
        return Err(format!("{} frames for {} steps", got.len(), a.steps.len()));
    }
    let mut model = vec![];
    for (i, (f, s)) in got.iter().zip(&a.steps).enumerate() {
        let at = |e: String| format!("frame {i}: {e}");
        if (f.l, f.t, f.w as u32, f.h as u32) != (0, 0, s.w, s.h) {
            return Err(at(format!("{}x{} at {},{} instead of {}x{}", f.w, f.h, f.l, f.t, s.w, s.h)));
        }
        if f.pixels != s.px {
            return Err(at("indices differ".into()));
        }
        if f.flags & 0x40 != 0 {
            return Err(at("interlaced".into()));
        }
        if (f.delay(), f.disposal(), f.trans()) != (s.delay(), s.disposal(), s.trans()) {
            return Err(at(format!(
                "delay, disposal, transparency {:?} instead of {:?}",
                (f.delay(), f.disposal(), f.trans()),
                (s.delay(), s.disposal(), s.trans())
            )));
        }
        let Some(t) = f.lct.as_ref().or(pre.gct.as_ref()) else {
            return Err(at("no colour table".into()));
        };
        prefix("colour table", t, s.colors()).map_err(at)?;
        // what a viewer makes of the step
        model.push(RFrame {
            gce: Some((s.disposal() << 2 | s.trans().is_some() as u8, s.delay(), s.trans().unwrap_or(0))),
            l: 0,
            t: 0,
            w: s.w as u16,
            h: s.h as u16,
            flags: 0,
            lct: Some(s.colors().concat()),
            pixels: s.px.clone(),
        });
    }
    let scr = RPreamble { screen: (a.steps[0].w as u16, a.steps[0].h as u16, 0, 0, 0), ..RPreamble::default() };
    let (want, err) = compose(&scr, &model);
    assert!(err.is_none());
    let s = steps(feed(&bytes), a.steps.len() + 2, None);
    if let Some(e) = s.err_name() {
        return Err(format!("steps: {e} after {}", s.items.len()));
    }
    cmp_steps(&s.items, &want)
}

/// Every palette size with its neighbour, every loop count edge; many and large
/// steps
fn enum_n(_: Tier) -> u64 {
    260 + 20 + 6
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    let i = i as usize;
    if i >= 280 {
        // many steps; large ones
        let mut r = cx.t.bulk();
        let n = [300, 70_000, 300, 2, 2, 3][i - 280];
        let (w, h) = [(1u32, 1u32), (1, 1), (3, 2), (65535, 2), (2, 65535), (700, 600)][i - 280];
        let colors = |r: &mut crate::tape::Rng, n: usize| -> Vec<[u8; 3]> { (0..n).map(|_| [r.upto(255) as u8, r.upto(255) as u8, 9]).collect() };
        let mut pal = colors(&mut r, 3);
        let mut steps = vec![];
        for k in 0..n {
            // rarely or always another palette
            if i == 282 || k % 97 == 96 {
                let n = 1 + r.upto(if i == 282 { 255 } else { 3 }) as usize;
                pal = colors(&mut r, n);
            }
            steps.push(StepM {
                w,
                h,
                px: (0..w as usize * h as usize).map(|_| r.below(pal.len() as u64) as u8).collect(),
                pal: pal.clone(),
                delay: Some(Some(k as u16)),
                disp: Some(r.upto(7) as u8),
                trans: Some(if r.upto(1) == 0 { None } else { Some(r.upto(3) as u8) }),
                order: 0,
            });
        }
        return check(cx, &AnimM { steps, loops: Some(7), global: None });
    }
    let (n, loops) = if i < 260 {
        (i + 1, None)
    } else {
        (2, Some([0u16, 1, 2, 127, 128, 255, 256, 257, 511, 512, 513, 1000, 4660, 32767, 32768, 65279, 65280, 65281, 65534, 65535][i - 260]))
    };
    let pal = |n: usize| -> Vec<[u8; 3]> { (0..n).map(|i| [i as u8, (i * 3) as u8, (i >> 4) as u8 + 1]).collect() };
    let step = |n: usize, delay: u16| StepM {
        w: n.min(256) as u32,
        h: 2,
        px: (0..2 * n.min(256)).map(|i| (i % n.min(256)) as u8).collect(),
        pal: pal(n),
        delay: Some(Some(delay)),
        disp: None,
        trans: None,
        order: 0,
    };
    let mut steps = vec![step(n, 0), step(n, 1), step(n, 256)];
    // a palette of one colour more, with the same picture
    steps[1].pal = pal(n + 1);
    steps[1].trans = Some(Some((n.min(256) - 1) as u8));
    for global in [None, Some(pal(n)), Some(pal(n + 1)), Some(pal(300 - n.min(256)))] {
        check(cx, &AnimM { steps: steps.clone(), loops, global })?;
    }
    Ok(())
}
