//! C13: looping playback repeats the animation exactly as the file asks
use crate::engine::*;
use crate::generate::*;
use crate::refgif::*;
use crate::view::*;

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        level: "exploration",
        rule: "animations with no loop count, or one or more loop count extensions (both application identifiers, \
               counts 0..65535) before the first frame, are played by the looping iterator to the end, or for many \
               repetitions if endless, and compared item by item with those of the non-looping iterator; non-trivial: 2 or \
               more repetitions of 2 or more steps; distinct by file bytes",
        assumptions: &["an endless animation is one which goes on for the repetitions tried (up to 70,000)"],
        quick: 1_440_000,
        thorough: 5_760_000,
        run,
        enum_n,
        enum_run,
        must: &["plays:once", "plays:few", "plays:endless", "plays:many", "two loop counts"],
    }
}

/// Play a file; items must be the steps again and again
fn play(cx: &mut Cx, m: &[RBlock], cap: usize) -> R {
    let (bytes, _) = write(m);
    cx.input(&bytes);
    cx.sample(|| summary(m));
    let (pre, fr) = group(m);
    let once = steps(feed(&bytes), bytes.len(), None);
    let want = once.items;
    if once.err.is_some() || want.is_empty() || want.len() != fr.len() {
        cx.class("not decoded");
        return Ok(());
    }
    let n = pre.looping.as_ref().map(|l| l.1);
    let reps = match n {
        None => Some(1),
        Some(0) => None,
        Some(n) => Some(n as usize + 1),
    };
    cx.class(match reps {
        Some(1) => "plays:once",
        Some(2..=20) => "plays:few",
        Some(_) => "plays:many",
        None => "plays:endless",
    });
    cx.nontrivial(want.len() >= 2 && reps != Some(1));
    let total = reps.map(|r| r * want.len());
    let upto = total.unwrap_or(usize::MAX).min(cap);
    let mut it = dec(feed(&bytes), None).into_iter();
    for i in 0..upto {
        let (r, k) = (i / want.len(), i % want.len());
        match it.next() {
            Some(Ok(s)) => {
                if let Some(d) = step_diff(&step_view(&s), &want[k]) {
                    return Err(format!("loop count {n:?}: repetition {r}, step {k}: {d}"));
                }
            }
            Some(Err(e)) => return Err(format!("loop count {n:?}: repetition {r}, step {k}: {}", err_name(&e))),
            None => return Err(format!("loop count {n:?}: ends after {i} items of {} steps", want.len())),
        }
    }
    if total == Some(upto) && it.next().is_some() {
        return Err(format!("loop count {n:?}: goes on after {upto} items of {} steps", want.len()));
    }
    Ok(())
}

fn run(cx: &mut Cx) -> R {
    let mut o = GifOpts::tiny();
    o.frames = (1, 5);
    o.late_meta = false;
    let mut m = gif(cx.t, &o);
    let at = if let RBlock::Gct(_) = m[2] { 3 } else { 2 };
    let k = cx.t.weighted(&[1, 4, 1]);
    for _ in 0..k {
        let n = match cx.t.weighted(&[4, 2, 2, 1]) {
            0 => cx.t.draw(6) as u16,
            1 => cx.t.draw(300) as u16,
            2 => cx.t.pick(&[0, 1, 2, 254, 255, 256, 257, 511, 512, 1000]),
            _ => cx.t.word(),
        };
        let a = loop_app(cx.t, n);
        m.insert(at, RBlock::App(a));
    }
    cx.class_if(k > 1, "two loop counts");
    play(cx, &m, 3000)
}

/// Enumerated: complete plays of long loops; large files
fn enum_n(_: Tier) -> u64 {
    60 + BIG
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    if i >= 60 {
        let i = i - 60;
        let mut r = cx.t.bulk();
        let mut m = big(i, &mut r);
        cx.class("large file");
        if i % 3 < 2 {
            m.insert(3, RBlock::App(vec![b"NETSCAPE2.0".to_vec(), vec![1, i as u8 % 3, 0]]));
        }
        let RBlock::Screen { w, h, .. } = m[1] else { unreachable!() };
        let n = m.iter().filter(|b| matches!(b, RBlock::Image(_))).count();
        let cap = (40_000_000 / (w as usize * h as usize)).clamp(2 * n + 1, 200_000);
        return play(cx, &m, cap);
    }
    let n = [0u16, 1, 2, 3, 127, 128, 255, 256, 257, 258, 512, 1023, 4096, 32767, 32768, 65280, 65281, 65533, 65534, 65535][(i % 20) as usize];
    let steps = [1, 2, 3][(i / 20) as usize];
    let id: &[u8] = if i % 2 == 0 { b"NETSCAPE2.0" } else { b"ANIMEXTS1.0" };
    let mut m = vec![
        RBlock::Header(*b"89a"),
        RBlock::Screen { w: 1, h: 1, flags: 0x81, bg: 0, aspect: 0 },
        RBlock::Gct((0..12).collect()),
        RBlock::App(vec![id.to_vec(), vec![1, n as u8, (n >> 8) as u8]]),
    ];
    for k in 0..steps {
        m.push(RBlock::Gce { flags: 1, delay: k, tidx: k as u8 + 1 });
        m.push(RBlock::Desc { l: 0, t: 0, w: 1, h: 1, flags: 0 });
        m.push(RBlock::Image(simple_image(&[k as u8])));
    }
    m.push(RBlock::Trailer);
    play(cx, &m, 70_000 * steps as usize)
}
