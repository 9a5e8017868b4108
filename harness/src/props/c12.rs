//! C12: steps show exactly what a GIF viewer would show
use crate::engine::*;
use crate::generate::*;
use crate::refgif::*;
use crate::view::*;

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        level: "exploration",
        rule: "animations of 1..8 frames anywhere on screens of up to 40x40 (some 65535 long), any disposal methods, \
               transparency, interlacing, local and global tables, are decoded to steps and compared pixel by pixel, \
               with delay and transparent colour, with a reference viewer; non-trivial: 2 or more frames; distinct by \
               file bytes",
        assumptions: &[
            "the reference viewer in refgif.rs follows GIF89a (screen starts transparent, background disposal clears \
             to transparent, reserved disposal methods keep)",
        ],
        quick: 1_080_000,
        thorough: 4_320_000,
        run,
        enum_n,
        enum_run,
        must: &[
            "disposal:none",
            "disposal:keep",
            "disposal:background",
            "disposal:previous",
            "disposal:reserved",
            "disposal 3 twice",
            "transparent",
            "interlaced",
            "lct",
            "long screen",
        ],
    }
}

fn run(cx: &mut Cx) -> R {
    let mut o = GifOpts::steps();
    o.frames = (1, 8);
    o.long = true;
    match cx.t.draw(3) {
        0 => o.side = 6,
        1 => o.side = 16,
        _ => {
            if cx.t.chance(1, 100) {
                o.side = 300;
            }
        }
    }
    let m = gif(cx.t, &o);
    classify(cx, &m);
    check(cx, &m)
}

fn check(cx: &mut Cx, m: &[RBlock]) -> R {
    let (bytes, _) = write(m);
    cx.input(&bytes);
    cx.sample(|| summary(m));
    let (pre, fr) = group(m);
    cx.nontrivial(fr.len() >= 2);
    cx.class_if(pre.screen.0 > 200 || pre.screen.1 > 200, "long screen");
    cx.class_if(fr.windows(2).any(|p| p[0].disposal() == 3 && p[1].disposal() == 3), "disposal 3 twice");
    let (want, err) = compose(&pre, &fr);
    assert!(err.is_none());
    let s = steps(feed(&bytes), bytes.len() + 4, None);
    if let Some(e) = s.err_name() {
        return Err(format!("{e} after {} steps", s.items.len()));
    }
    cmp_steps(&s.items, &want)
}

/// Enumerated: interlaced frames of every height up to 64; every pair of
/// disposal methods; every delay byte pattern; large files
fn enum_n(_: Tier) -> u64 {
    64 + 64 * 4 + 40 + BIG
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    if i >= 64 + 64 * 4 + 40 {
        let mut r = cx.t.bulk();
        cx.class("large file");
        return check(cx, &big(i - 64 - 64 * 4 - 40, &mut r));
    }
    let gct: Vec<u8> = (0..768).map(|i| (i as u32 * 7 % 251) as u8).collect();
    let mut m = vec![
        RBlock::Header(*b"89a"),
        RBlock::Screen { w: 5, h: 70, flags: 0x87, bg: 3, aspect: 0 },
        RBlock::Gct(gct),
    ];
    if i < 64 {
        let h = i as u16 + 1;
        for (k, w) in [1u16, 2, 5].into_iter().enumerate() {
            m.push(RBlock::Desc { l: 0, t: k as u16, w, h, flags: 0x40 });
            let px: Vec<u8> = (0..w as usize * h as usize).map(|i| (i + k) as u8).collect();
            m.push(RBlock::Image(simple_image(&px)));
        }
    } else if i < 64 + 256 {
        let i = i - 64;
        let (d, trans) = ((i / 4) as u8, i % 4);
        m[1] = RBlock::Screen { w: 4, h: 3, flags: 0x87, bg: 3, aspect: 0 };
        let pos = [(0u16, 0u16, 4u16, 3u16), (1, 1, 2, 1), (2, 0, 2, 3), (0, 1, 1, 2), (0, 0, 4, 3)];
        for (k, (l, t, w, h)) in pos.into_iter().enumerate() {
            let disp = if k == 4 { 0 } else if k % 2 == 0 { d % 8 } else { d / 8 };
            let flags = disp << 2 | (trans as u8 >> (k % 2)) & 1;
            m.push(RBlock::Gce { flags, delay: k as u16, tidx: 2 });
            m.push(RBlock::Desc { l, t, w, h, flags: 0 });
            let px: Vec<u8> = (0..w * h).map(|i| if i % 3 == 0 { 2 } else { (i + 3 + 20 * k as u16) as u8 }).collect();
            m.push(RBlock::Image(simple_image(&px)));
        }
    } else {
        let i = i - 64 - 256;
        let delay = [0u16, 1, 2, 9, 10, 99, 100, 255, 256, 257, 511, 512, 1000, 4660, 32767, 32768, 43981, 65280, 65534, 65535][(i % 20) as usize];
        m[1] = RBlock::Screen { w: 1, h: 1, flags: 0x87, bg: 3, aspect: 0 };
        m.push(RBlock::Gce { flags: (i / 20) as u8, delay, tidx: i as u8 });
        m.push(RBlock::Desc { l: 0, t: 0, w: 1, h: 1, flags: 0 });
        m.push(RBlock::Image(simple_image(&[255])));
        m.push(RBlock::Desc { l: 0, t: 0, w: 1, h: 1, flags: 0 });
        m.push(RBlock::Image(simple_image(&[i as u8])));
    }
    m.push(RBlock::Trailer);
    check(cx, &m)
}
