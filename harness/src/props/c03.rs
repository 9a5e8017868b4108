//! C03: every valid LZW encoding of an image decodes to its exact pixels
use crate::engine::*;
use crate::generate::*;
use crate::refgif::*;
use crate::tape::Rng;
use crate::view::*;

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        level: "exploration",
        rule: "images compressed by a reference LZW encoder with random choices (match lengths, clear codes, full \
               dictionary kept, minimum code size, sub-block split, padding, junk and more sub-blocks after the end \
               code, surplus pixels) are decoded; non-trivial: 2 or more pixels with 2 or more values; distinct by \
               file bytes",
        assumptions: &["the reference encoder only makes streams which the GIF specification allows (each is verified \
                        with the strict reference decoder)"],
        quick: 480_000,
        thorough: 1_920_000,
        run,
        enum_n,
        enum_run,
        must: &["full table kept", "KwKwK", "clears:2+", "surplus pixels", "junk after end", "width 12", "no first clear"],
    }
}

fn run(cx: &mut Cx) -> R {
    let (w, h) = dims(cx.t, 300_000);
    let n = w as usize * h as usize;
    let n_sym = nsym(cx.t);
    let mut px = pixels(cx.t, n, n_sym);
    let extra = if cx.t.chance(1, 8) {
        match cx.t.draw(2) {
            0 => 1,
            1 => cx.t.usize(1, 20),
            _ => cx.t.usize(1, 5000),
        }
    } else {
        0
    };
    if extra > 0 {
        let more = pixels(cx.t, extra, n_sym);
        px.extend(more);
    }
    let plan = LzwPlan::draw(cx.t, &px);
    let mut r = if plan.clear_p > 0 || plan.short_p > 0 { cx.t.bulk() } else { Rng(0) };
    let (mut data, _) = lzw_encode(&px, &plan, &mut r);
    let chunks_junk = if cx.t.chance(1, 4) {
        match cx.t.weighted(&[2, 1]) {
            // in the same sub-block
            0 => {
                let k = cx.t.usize(1, 20);
                let p = payload(cx.t, k);
                data.extend(p);
                vec![]
            }
            _ => {
                let mut s = subs(cx.t, false);
                s.truncate(3);
                s
            }
        }
    } else {
        vec![]
    };
    let mut chunks = split(&data, cx.t);
    chunks.extend(chunks_junk);
    check(cx, w, h, &px, plan.min, chunks)
}

fn check(cx: &mut Cx, w: u16, h: u16, px: &[u8], min: u8, chunks: Vec<Vec<u8>>) -> R {
    let n = w as usize * h as usize;
    let data = chunks.concat();
    // the case is only valid if the reference decoder agrees
    let refd = lzw_decode(min, &data, usize::MAX).map_err(|e| format!("HARNESS: {e}"))?;
    if refd.pixels != px || !matches!(refd.end, LzwEnd::End { .. }) {
        return Err("HARNESS: reference encoder and decoder disagree".into());
    }
    cx.class_if(refd.full_run > 0, "full table kept");
    cx.class_if(refd.full_run > 61_440, "full table kept for 61,440 codes");
    cx.class_if(refd.kwkwk > 0, "KwKwK");
    cx.class_if(px.len() > n, "surplus pixels");
    cx.class_if(!refd.clear_first, "no first clear");
    if let LzwEnd::End { rest_bits } = refd.end {
        cx.class_if(rest_bits >= 8, "junk after end");
    }
    cx.class(format!("width {}", refd.max_width));
    cx.class(format!("min {min}"));
    cx.class(match refd.clears {
        0 => "clears:0",
        1 => "clears:1",
        _ => "clears:2+",
    });
    let m = [
        RBlock::Header(*b"89a"),
        RBlock::Screen { w, h, flags: 0, bg: 0, aspect: 0 },
        RBlock::Desc { l: 0, t: 0, w, h, flags: 0 },
        RBlock::Image(RImage { pixels: px[..n].to_vec(), min, chunks }),
        RBlock::Trailer,
    ];
    let (bytes, _) = write(&m);
    cx.input(&bytes);
    cx.nontrivial(px.len() >= 2 && px.iter().any(|p| *p != px[0]));
    cx.sample(|| format!("{} | {} codes, {} clears", summary(&m), refd.codes, refd.clears));
    let s = blocks(feed(&bytes), bytes.len(), Some(None));
    if let Some(e) = s.err_name() {
        return Err(format!("{w}x{h}, minimum code size {min}: {e}"));
    }
    cmp_blocks(&s.items, &m)
}

/// Enumerated: literal-only streams of one dictionary's length around the
/// code width changes; very long runs with a full dictionary
fn enum_n(_: Tier) -> u64 {
    7 * 40 + 8 + 24 + 7 * 12 + 4 + EDGES
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    let i = i as usize;
    if i < 280 {
        // lengths around each power of two, for each code size
        let min = 2 + (i % 7) as u8;
        let k = i / 7;
        let width = (min as usize + 1 + k / 5).min(12);
        let len = ((1usize << width) - (1 << min) + k % 5).saturating_sub(3).max(1);
        let mut r = cx.t.bulk();
        let px: Vec<u8> = (0..len).map(|_| r.below(1 << min) as u8).collect();
        for literal in [true, false] {
            let mut plan = LzwPlan::greedy(min);
            plan.literal = literal;
            plan.full_delay = None;
            let (data, _) = lzw_encode(&px, &plan, &mut Rng(0));
            check(cx, len as u16, 1, &px, min, plain_split(&data))?;
        }
        return Ok(());
    }
    let i = i - 280;
    if i < 8 {
        // the dictionary stays full for more than 65,536 codes
        let min = [8u8, 8, 2, 4, 8, 7, 3, 2][i];
        let n = [70_000usize, 140_000, 80_000, 70_000, 200_000, 66_000, 67_000, 300_000][i];
        let mut r = cx.t.bulk();
        let px: Vec<u8> = (0..n).map(|_| r.below(1 << min) as u8).collect();
        let mut plan = LzwPlan::greedy(min);
        plan.literal = i < 4;
        plan.full_delay = None;
        plan.short_p = if i >= 4 { 128 } else { 0 };
        let (data, _) = lzw_encode(&px, &plan, &mut r);
        return check(cx, 1000, (n / 1000) as u16, &px[..n / 1000 * 1000], min, {
            let (d, _) = if n % 1000 == 0 { (data, 0) } else { lzw_encode(&px[..n / 1000 * 1000], &plan, &mut r) };
            plain_split(&d)
        });
    }
    let i = i - 8;
    if i < 24 {
        // a clear code at each point around the moment the table gets full
        let min = [2u8, 8, 5][i % 3];
        let delay = i / 3;
        let mut r = cx.t.bulk();
        let px: Vec<u8> = (0..30_000).map(|_| r.below(1 << min) as u8).collect();
        let mut plan = LzwPlan::greedy(min);
        plan.full_delay = Some(delay);
        let (data, _) = lzw_encode(&px, &plan, &mut r);
        return check(cx, 300, 100, &px, min, plain_split(&data));
    }
    // each sub-block size class with every code size
    let i = i - 24;
    if i >= 7 * 12 + 4 {
        // codes where the dictionary gets full or codes wider
        let mut r = cx.t.bulk();
        let Some(e) = edge((i - 7 * 12 - 4) as u64, &mut r) else { return Ok(()) };
        let Some(px) = e.pixels else { return Ok(()) };
        cx.class("dictionary edge");
        return check(cx, px.len() as u16, 1, &px, e.min, plain_split(&e.data));
    }
    if i >= 7 * 12 {
        // large images
        let i = i - 7 * 12;
        let (w, h, min) = [(4000, 4000, 8u8), (5792, 5792, 2), (65535, 60, 3), (3, 65535, 8)][i];
        let n = w as usize * h as usize;
        let mut r = cx.t.bulk();
        let px: Vec<u8> = if i == 1 { vec![3; n] } else { (0..n).map(|_| r.below(1 << min) as u8).collect() };
        let mut plan = LzwPlan::greedy(min);
        if i >= 2 {
            plan.full_delay = None;
        }
        let (data, _) = lzw_encode(&px, &plan, &mut r);
        return check(cx, w, h, &px, min, plain_split(&data));
    }
    let min = 2 + (i % 7) as u8;
    let size = [1, 2, 3, 4, 5, 7, 8, 11, 12, 128, 254, 255][i / 7];
    let mut r = cx.t.bulk();
    let px: Vec<u8> = (0..12_000).map(|_| r.below(1 << min) as u8).collect();
    let (data, _) = lzw_encode(&px, &LzwPlan::greedy(min), &mut r);
    let chunks = data.chunks(size).map(|c| c.to_vec()).collect();
    check(cx, 120, 100, &px, min, chunks)
}
