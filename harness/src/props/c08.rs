//! C08: a truncated file yields an exact prefix, then an end-of-file error
use crate::engine::*;
use crate::generate::*;
use crate::io::*;
use crate::refgif::*;
use crate::view::*;

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        level: "exploration",
        rule: "well-formed files are cut at every byte (small files) or at block edges, near them and at random bytes \
               (larger ones), and decoded at all four levels; expected are exactly those blocks, frames and steps \
               of the whole file which end before the cut; non-trivial: at least 2 frames; distinct by file bytes",
        assumptions: &["the reference writer in refgif.rs knows where blocks end"],
        quick: 270_000,
        thorough: 1_080_000,
        run,
        enum_n,
        enum_run,
        must: &["all cuts", "cut inside image data", "cut in extension", "cut before first frame", "one byte short"],
    }
}

pub fn judge<T>(what: &str, s: Seq<T>, n: usize, cmp: impl Fn(&[T]) -> R, eof: bool) -> R {
    let want = if eof { Some("UnexpectedEndOfFile".to_string()) } else { None };
    cmp(&s.items).map_err(|e| format!("{what}: {e}"))?;
    if s.err_name() != want {
        return Err(format!("{what}: after {n} items {:?} instead of {want:?}", s.err_name()));
    }
    if !s.stopped {
        return Err(format!("{what}: something follows the end-of-file error"));
    }
    Ok(())
}

fn run(cx: &mut Cx) -> R {
    let small = cx.t.chance(2, 3);
    let o = if small { GifOpts::tiny() } else { GifOpts { side: 30, ..GifOpts::steps() } };
    let m = gif(cx.t, &o);
    classify(cx, &m);
    check(cx, &m, 12)
}

/// Large files
fn enum_n(_: Tier) -> u64 {
    BIG
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    let mut r = cx.t.bulk();
    cx.class("large file");
    check(cx, &big(i, &mut r), 8)
}

fn check(cx: &mut Cx, m: &[RBlock], n_cuts: usize) -> R {
    let (bytes, ends) = write(m);
    cx.input(&bytes);
    cx.sample(|| summary(m));
    let images = m.iter().filter(|b| matches!(b, RBlock::Image(_))).count();
    cx.nontrivial(images >= 2);
    let max = bytes.len() + 4;
    // what the whole file gives; whether that is right is another matter
    let wb = blocks(feed(&bytes), max, None);
    let wf = frames(feed(&bytes), max, None);
    let ws = steps(feed(&bytes), max, None);
    if wb.err.is_some() || wf.err.is_some() || ws.err.is_some() || wb.items.len() != m.len() || wf.items.len() != images || ws.items.len() != images {
        cx.class("whole file not decoded");
        return Ok(());
    }
    let cuts: Vec<usize> = if bytes.len() <= 400 {
        cx.class("all cuts");
        (0..=bytes.len()).collect()
    } else {
        let mut v = vec![bytes.len() - 1, bytes.len()];
        for _ in 0..n_cuts {
            let e = cx.t.pick(&ends);
            v.push(match cx.t.draw(3) {
                0 => e,
                1 => e - 1,
                2 => (e + 1).min(bytes.len()),
                _ => cx.t.usize(0, bytes.len()),
            });
        }
        v
    };
    for cut in cuts {
        cx.exec();
        let data = &bytes[..cut];
        let n = ends.iter().filter(|e| **e <= cut).count();
        let nf = m[..n].iter().filter(|b| matches!(b, RBlock::Image(_))).count();
        let eof = cut < bytes.len();
        if eof && !ends.contains(&cut) {
            match &m[n] {
                RBlock::Image(_) => cx.class("cut inside image data"),
                RBlock::Comment(_) | RBlock::App(_) | RBlock::Unknown(..) | RBlock::PlainText(_) => cx.class("cut in extension"),
                _ => {}
            }
        }
        cx.class_if(nf == 0, "cut before first frame");
        cx.class_if(cut + 1 == bytes.len(), "one byte short");
        let at = |e| format!("cut at {cut} of {}: {e}", bytes.len());
        judge("blocks", blocks(Feed::new(data), max, None), n, |g| cmp_blocks(g, &wb.items[..n]), eof).map_err(at)?;
        judge("frames", frames(Feed::new(data), max, None), nf, |g| cmp_frames(g, &wf.items[..nf]), eof).map_err(at)?;
        judge("frames after preamble", frames_after(Feed::new(data), max, None), nf, |g| cmp_frames(g, &wf.items[..nf]), eof).map_err(at)?;
        judge("steps", steps(Feed::new(data), max, None), nf, |g| cmp_steps(g, &ws.items[..nf]), eof).map_err(at)?;
        if eof {
            judge("looping", looping(Feed::new(data), max, None), nf, |g| cmp_steps(g, &ws.items[..nf]), true).map_err(at)?;
        }
    }
    Ok(())
}
