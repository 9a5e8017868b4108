//! C09: every decoding iterator stops after its first error or its end
use crate::engine::*;
use crate::generate::*;
use crate::io::*;
use crate::refgif::*;
use crate::view::*;
use std::io::ErrorKind;

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        level: "exploration",
        rule: "arbitrary, mutated and damaged files (damage followed by more valid data), whole files with bytes after \
               the trailer, and readers which fail once or for good are decoded at all four levels; the call after the \
               first error or the trailer must return None, and the looping iterator must deliver the non-looping \
               one's items and error; non-trivial: an error at some level after 3 or more blocks, or bytes after the \
               trailer; distinct by input and fault",
        assumptions: &[],
        quick: 6_000_000,
        thorough: 24_000_000,
        run,
        enum_n: no_enum,
        enum_run: no_enum_run,
        must: &[
            "damaged loop with good steps",
            "junk after trailer",
        ],
    }
}

fn run(cx: &mut Cx) -> R {
    let mut plan = Plan::default();
    let mut junk = false;
    let bytes = match cx.t.weighted(&[4, 4, 2, 2]) {
        0 => wild(cx.t).0,
        // damage between valid blocks
        1 => {
            let mut m = gif(cx.t, &GifOpts { frames: (1, 4), ext: 25, ..GifOpts::tiny() });
            if cx.t.flag() {
                let n = cx.t.pick(&[0, 0, 1, 5]);
                let at = if table_len(match m[1] {
                    RBlock::Screen { flags, .. } => flags,
                    _ => 0,
                }) > 0
                {
                    3
                } else {
                    2
                };
                m.insert(at, RBlock::App(loop_app(cx.t, n)));
            }
            damage(cx, &m)
        }
        2 => {
            junk = true;
            let (mut b, _) = write(&gif(cx.t, &GifOpts::tiny()));
            if cx.t.flag() {
                // a whole file again
                let c = b.clone();
                b.extend(c);
            } else {
                let k = cx.t.usize(1, 50);
                b.extend(payload(cx.t, k));
            }
            b
        }
        _ => {
            let (b, _) = write(&gif(cx.t, &GifOpts::tiny()));
            plan.fail = Some((cx.t.usize(0, b.len() - 1), cx.t.pick(&[ErrorKind::Other, ErrorKind::WouldBlock]), 77));
            plan.once = cx.t.flag();
            b
        }
    };
    cx.key((&bytes, plan.fail.map(|f| f.0), plan.once));
    cx.info.input = Some(bytes.clone());
    cx.class_if(junk, "junk after trailer");
    let limit = Some(Some(4096));
    let max = bytes.len() + 4;
    let f = || Feed::with_plan(&bytes, plan.clone());
    let b = blocks(f(), max, limit);
    let fr = frames(f(), max, limit);
    let mut fp = frames_after(f(), max, limit);
    // a file without frames has no preamble: this is not an error of the file
    fp.stopped |= fp.items.is_empty() && fr.err.is_none();
    let s = steps(f(), max, limit);
    cx.nontrivial(junk || (b.items.len() > 2 && (b.err.is_some() || fr.err.is_some() || s.err.is_some())));
    cx.sample(|| {
        format!(
            "{} bytes: {} blocks {:?}, {} frames {:?}, {} steps {:?}",
            bytes.len(),
            b.items.len(),
            b.err_name(),
            fr.items.len(),
            fr.err_name(),
            s.items.len(),
            s.err_name()
        )
    });
    if let Some(i) = b.items.iter().position(|b| *b == RBlock::Trailer)
        && (i + 1 != b.items.len() || b.err.is_some() || !b.stopped)
    {
        return Err(format!("blocks: something follows the trailer: {} blocks, {:?}", b.items.len() - i - 1, b.err_name()));
    }
    for (what, err, stopped, over) in [
        ("blocks", b.err_name(), b.stopped, b.overrun),
        ("frames", fr.err_name(), fr.stopped, fr.overrun),
        ("frames after preamble", fp.err_name(), fp.stopped, fp.overrun),
        ("steps", s.err_name(), s.stopped, s.overrun),
    ] {
        if over {
            return Err(format!("{what}: no end after {max} items"));
        }
        if !stopped {
            return Err(format!("{what}: an item follows the error {err:?}"));
        }
        if let Some(e) = err {
            let e = e.split('(').next().unwrap().to_string();
            cx.class(format!("err:{e}"));
        }
    }
    if s.err.is_some() {
        let l = looping(f(), max, limit);
        cx.class_if(!s.items.is_empty(), "damaged loop with good steps");
        cmp_steps(&l.items, &s.items).map_err(|e| format!("looping: {e}"))?;
        if l.err_name() != s.err_name() {
            return Err(format!("looping: {:?} instead of {:?}", l.err_name(), s.err_name()));
        }
        if !l.stopped {
            return Err(format!("looping: an item follows the error {:?}", l.err_name()));
        }
    }
    Ok(())
}

/// Damage a file in one place and leave the rest as it is
fn damage(cx: &mut Cx, m: &[RBlock]) -> Vec<u8> {
    let mut m = m.to_vec();
    // a place where a block may start
    let starts: Vec<usize> = (2..m.len())
        .filter(|i| {
            !matches!(m[*i], RBlock::Gct(_) | RBlock::Lct(_) | RBlock::Image(_))
                && !matches!(m[i - 1], RBlock::Screen { flags, .. } if table_len(flags) > 0)
        })
        .collect();
    let at = cx.t.pick(&starts);
    let raw: Vec<u8> = match cx.t.draw(9) {
        0 => vec![cx.t.pick(&[0u8, 0x20, 0x2D, 0xFF, 0x3A, 0x22])],
        1 => {
            let k = cx.t.pick(&[1usize, 2, 3, 5, 6, 255]);
            let mut v = vec![0x21, 0xF9, k as u8];
            v.extend(payload(cx.t, k));
            v.push(0);
            v
        }
        // two graphic controls
        2 => vec![0x21, 0xF9, 4, 0, 0, 0, 0, 0, 0x21, 0xF9, 4, 0, 0, 0, 0, 0],
        // an image with bad, or too few codes
        3 => vec![0x2C, 0, 0, 0, 0, 1, 0, 1, 0, 0, 2, 2, 0x3C, 0x3F, 0],
        4 => vec![0x2C, 0, 0, 0, 0, 1, 0, 1, 0, 0, 2, 1, 0x2C, 0],
        5 => vec![0x2C, 0, 0, 0, 0, 1, 0, 1, 0, 0, 2, 0],
        // too large; outside the screen; bad index
        6 => vec![0x2C, 0, 0, 0, 0, 0xFF, 0xFF, 0xFF, 0xFF, 0, 2, 0],
        7 => vec![0x2C, 0xFF, 0xFF, 0, 0, 1, 0, 1, 0, 0, 2, 2, 0x44, 0x01, 0],
        8 => {
            let mut v = vec![0x2C, 0, 0, 0, 0, 1, 0, 1, 0, 0];
            write_block(&mut v, &RBlock::Image(simple_image(&[200])));
            v
        }
        // no table
        _ => {
            if let RBlock::Screen { flags, .. } = &mut m[1] {
                *flags &= 0x7F;
                if let RBlock::Gct(_) = m[2] {
                    m.remove(2);
                }
            }
            let at = at.min(m.len() - 1).max(2);
            let mut o = vec![];
            for (i, b) in m.iter().enumerate() {
                if i == at && !matches!(b, RBlock::Lct(_) | RBlock::Image(_)) {
                    o.extend([0x2C, 0, 0, 0, 0, 1, 0, 1, 0, 0, 2, 2, 0x44, 0x01, 0]);
                }
                write_block(&mut o, b);
            }
            return o;
        }
    };
    let mut o = vec![];
    for (i, b) in m.iter().enumerate() {
        if i == at {
            o.extend_from_slice(&raw);
        }
        write_block(&mut o, b);
    }
    o
}
