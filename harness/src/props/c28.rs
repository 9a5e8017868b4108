//! C28: the step encoder writes what the animation needs and nothing else
use super::common::*;
use crate::engine::*;
use crate::io::Sink;
use crate::refgif::*;
use crate::view::*;
use gift::Encoder;

pub fn prop() -> Prop {
    Prop {
        id: "C28",
        level: "exploration",
        rule: "sequences of 1..8 equally sized indexed steps (palettes of 1..600 entries, the same, coming back, a part or \
               extension of another, nearly the same or different; any delay, disposal, transparency, loop count, preset global table) are written with \
               StepEnc and the blocks of the file are compared with those the steps call for; non-trivial: 2 or more \
               steps; distinct by file bytes",
        assumptions: &["a step encoder compares palettes as the file holds them, padded with black to a power of two"],
        quick: 540_000,
        thorough: 2_160_000,
        run,
        enum_n,
        enum_run,
        must: &["preset", "preset not used", "palette comes back", "derived palette", "no control", "control", "local table", "global table", "over 256 colours"],
    }
}

fn run(cx: &mut Cx) -> R {
    let mut a = draw_anim(cx.t, 6, 300);
    // palettes which come back, with the same or other pictures
    for i in 1..a.steps.len().min(20) {
        if cx.t.chance(1, 3) {
            let j = cx.t.usize(0, i - 1);
            let s = a.steps[j].clone();
            if cx.t.flag() {
                a.steps[i] = s;
            } else if cx.t.flag() {
                // a palette made from another or from the preset one
                let from = a.global.clone().filter(|g| !g.is_empty() && cx.t.flag()).unwrap_or(s.pal);
                let need = a.steps[i].px.iter().max().map_or(1, |p| *p as usize + 1);
                if let Some(p) = derived(cx, from, need) {
                    a.steps[i].pal = p;
                    cx.class("derived palette");
                }
            } else if a.steps[i].px.iter().all(|p| (*p as usize) < s.pal.len()) {
                a.steps[i].pal = s.pal;
            }
        }
    }
    check(cx, &a)
}

/// A palette which has much in common with another: its beginning, longer,
/// with one colour or one bit changed, or two colours swapped
fn derived(cx: &mut Cx, mut p: Vec<[u8; 3]>, need: usize) -> Option<Vec<[u8; 3]>> {
    let n = p.len();
    match cx.t.draw(4) {
        0 if n > need => {
            let half = n.next_power_of_two() / 2;
            let k = if cx.t.flag() && half >= need { half } else { cx.t.usize(need, n) };
            p.truncate(k);
        }
        1 => {
            let k = if cx.t.flag() { n } else { cx.t.usize(1, 20) };
            let c = [cx.t.byte(), cx.t.byte(), if cx.t.flag() { 0 } else { 9 }];
            p.resize((n + k).min(600), c);
        }
        2 => {
            let (i, c, b) = (cx.t.usize(0, n - 1), cx.t.usize(0, 2), cx.t.usize(0, 7));
            p[i][c] ^= 1 << b;
        }
        _ => {
            let (i, k) = (cx.t.usize(0, n - 1), cx.t.usize(0, n - 1));
            p.swap(i, k);
        }
    }
    (p.len() >= need).then_some(p)
}

fn table(colors: &[[u8; 3]]) -> Vec<u8> {
    let c = &colors[..colors.len().min(256)];
    let mut v = c.concat();
    v.resize(3 * c.len().next_power_of_two().max(2), 0);
    v
}

fn check(cx: &mut Cx, a: &AnimM) -> R {
    let sink = Sink::plain();
    let mut e = Encoder::new(sink.clone()).into_step_enc();
    if let Some(n) = a.loops {
        e = e.with_loop_count(n);
    }
    if let Some(g) = &a.global {
        e = e.with_global_color_table(&palette(g));
        cx.class("preset");
        cx.class_if(a.steps.iter().all(|s| s.pal != *g), "preset not used");
    }
    cx.class_if(a.steps.windows(3).any(|s| s[0].pal == s[2].pal && s[0].pal != s[1].pal), "palette comes back");
    cx.class_if(a.steps.iter().any(|s| s.pal.len() > 256), "over 256 colours");
    for (i, s) in a.steps.iter().enumerate() {
        e.encode_step(&s.to_gift()).map_err(|e| format!("step {i}: {}", err_name(&e)))?;
    }
    drop(e);
    let bytes = sink.bytes();
    cx.input(&bytes);
    cx.nontrivial(a.steps.len() > 1);
    cx.sample(|| {
        let pals: Vec<usize> = a.steps.iter().map(|s| s.pal.len()).collect();
        format!("{} bytes, palettes {pals:?} loops {:?} preset {:?}", bytes.len(), a.loops, a.global.as_ref().map(|g| g.len()))
    });
    let got = parse(&bytes).map_err(|e| format!("not a conforming file: {e}"))?.blocks;
    let mut it = got.iter();
    let mut due = |what: String, ok: &dyn Fn(&RBlock) -> bool| -> R {
        match it.next() {
            Some(b) if ok(b) => Ok(()),
            Some(b) => Err(format!("{} where {what} is due", short(b))),
            None => Err(format!("the file ends where {what} is due")),
        }
    };
    let (w, h) = (a.steps[0].w as u16, a.steps[0].h as u16);
    let global = table(a.global.as_ref().unwrap_or(&a.steps[0].pal));
    let bits = |t: &[u8]| (t.len() / 3).trailing_zeros() as u8 - 1;
    due("a header".into(), &|b| *b == RBlock::Header(*b"89a"))?;
    // (the colour resolution may be anything)
    due(format!("a screen of {w}x{h}"), &|b| matches!(b, RBlock::Screen { w: bw, h: bh, flags, aspect: 0, .. } if (*bw, *bh) == (w, h) && *flags & 0x8F == 0x80 | bits(&global)))?;
    due("the global table".into(), &|b| *b == RBlock::Gct(global.clone()))?;
    if let Some(n) = a.loops {
        due(format!("the loop count {n}"), &|b| matches!(b, RBlock::App(s) if s.len() == 2 && loop_count(s) == Some(n)))?;
    }
    for (i, s) in a.steps.iter().enumerate() {
        let c = (s.disposal() << 2 | s.trans().is_some() as u8, s.delay(), s.trans().unwrap_or(0));
        if c == (0, 0, 0) {
            cx.class("no control");
        } else {
            cx.class("control");
            due(format!("the control of step {i}"), &|b| matches!(b, RBlock::Gce { flags, delay, tidx } if (*flags, *delay, *tidx) == c))?;
        }
        let t = table(&s.pal);
        let own = t != global;
        cx.class(if own { "local table" } else { "global table" });
        let flags = if own { 0x80 | bits(&t) } else { 0 };
        let d = RBlock::Desc { l: 0, t: 0, w, h, flags };
        due(format!("the descriptor of step {i} with{} local table", if own { "" } else { "out" }), &|b| *b == d)?;
        if own {
            due(format!("the local table of step {i}"), &|b| *b == RBlock::Lct(t.clone()))?;
        }
        due(format!("the image of step {i}"), &|b| matches!(b, RBlock::Image(m) if m.pixels == s.px))?;
    }
    due("the trailer".into(), &|b| *b == RBlock::Trailer)?;
    match it.next() {
        None => Ok(()),
        Some(b) => Err(format!("{} after the trailer", short(b))),
    }
}

/// Enumerated: every palette size, with the next one, its halves and black at
/// its end; many steps
fn enum_n(_: Tier) -> u64 {
    520 + 2
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    let n = i as usize / 2 + 1;
    let pal = |n: usize, last: u8| -> Vec<[u8; 3]> {
        let mut v: Vec<[u8; 3]> = (0..n).map(|i| [i as u8, (i * 3) as u8, (i >> 4) as u8 + 1]).collect();
        v[n - 1] = [last; 3];
        v
    };
    let step = |pal: Vec<[u8; 3]>, k: u16| StepM {
        w: 3,
        h: 1,
        px: vec![0, (pal.len() - 1).min(255) as u8, 0],
        pal,
        delay: Some(Some(k / 2)),
        disp: None,
        trans: if k == 3 { Some(Some(0)) } else { None },
        order: 0,
    };
    if i >= 520 {
        let pals = [pal(2, 1), pal(3, 0), pal(2, 1), pal(2, 1), pal(4, 7)];
        let steps = (0..[300u32, 70_000][i as usize - 520]).map(|k| step(pals[k as usize % 5].clone(), (k % 7) as u16)).collect();
        return check(cx, &AnimM { steps, loops: Some(i as u16), global: None });
    }
    let half = |k: usize| pal(n, 1)[..(n.next_power_of_two() / k).clamp(1, n)].to_vec();
    let pals = [pal(n, 1), pal(n + 1, 0), half(2), pal(n, 1), pal(n, 2), pal(n + 1, 0), half(4), pal(n, 0)];
    let steps = pals.into_iter().enumerate().map(|(k, p)| step(p, k as u16)).collect();
    let global = if i % 2 == 0 { None } else { Some(pal(n + 1, 0)) };
    check(cx, &AnimM { steps, loops: if n % 3 == 0 { Some(n as u16) } else { None }, global })
}
