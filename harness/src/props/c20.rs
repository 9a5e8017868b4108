//! C20: compression is effective and bounded for every image
use crate::engine::*;
use crate::generate::*;
use crate::io::Sink;
use crate::refgif::*;
use crate::view::*;
use gift::Encoder;

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        level: "exploration",
        rule: "images of 1..300,000 pixels of varied content are encoded; the size of the image data is compared with \
               that of a reference greedy LZW encoder which resets the dictionary when it is full; non-trivial: 100 or \
               more pixels; distinct by pixels",
        assumptions: &["the reference encoder in refgif.rs is a straightforward greedy one"],
        quick: 450_000,
        thorough: 1_800_000,
        run,
        enum_n,
        enum_run,
        must: &["reference resets:0", "reference resets:1", "reference resets:2+"],
    }
}

fn run(cx: &mut Cx) -> R {
    let (w, h) = dims(cx.t, 300_000);
    let n_sym = nsym(cx.t);
    let px = pixels(cx.t, w as usize * h as usize, n_sym);
    check(cx, &px)
}

fn check(cx: &mut Cx, px: &[u8]) -> R {
    cx.key(px);
    cx.nontrivial(px.len() >= 100);
    let sink = Sink::plain();
    let mut e = Encoder::new(sink.clone()).into_block_enc();
    let img = RBlock::Image(RImage { pixels: px.to_vec(), min: 0, chunks: vec![] });
    e.encode(to_gift(&img)).map_err(|e| format!("encode: {}", err_name(&e)))?;
    drop(e);
    let out = sink.bytes();
    // the payload, without the lengths
    let mut data = vec![];
    let mut i = 1;
    while i < out.len() && out[i] > 0 {
        let k = out[i] as usize;
        let Some(c) = out.get(i + 1..i + 1 + k) else {
            return Err("image data end within a sub-block".into());
        };
        data.extend_from_slice(c);
        i += 1 + k;
    }
    let max = px.iter().copied().max().unwrap_or(0) as u32;
    let min = (32 - max.leading_zeros()).clamp(2, 8) as u8;
    let mut rng = crate::tape::Rng(1);
    let (best, _) = lzw_encode(px, &LzwPlan::greedy(min), &mut rng);
    let (got, want) = (data.len(), best.len());
    cx.sample(|| format!("{} pixels: {got} bytes, reference {want}", px.len()));
    cx.class_if(got > px.len(), "incompressible");
    cx.class_if(got * 20 < px.len(), "shrinks 20 times");
    if let Ok(o) = lzw_decode(min, &best, px.len()) {
        cx.class(match o.clears {
            0 | 1 => "reference resets:0",
            2 => "reference resets:1",
            _ => "reference resets:2+",
        });
    }
    if got * 100 > want * 101 + 400 {
        return Err(format!("{} pixels take {got} bytes, the reference encoder {want}", px.len()));
    }
    if out.len() * 10 > px.len() * 16 + 320 {
        return Err(format!("{} pixels take {} bytes", px.len(), out.len()));
    }
    Ok(())
}

/// Enumerated: runs, repeats, ramps and noise of growing size
fn enum_n(_: Tier) -> u64 {
    40 * 8 + 4
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    let n = [1usize, 2, 3, 10, 100, 255, 256, 1000, 4095, 4096, 4097, 10_000, 20_000, 65_536, 100_000, 150_000, 200_000, 300_000, 400_000, 500_000]
        [(i % 20) as usize];
    let two = (i / 20) % 2 == 1;
    let mut r = cx.t.bulk();
    if i >= 40 * 8 {
        let n = [4_000_000usize, 4_000_000, 8_000_000, 3_000_000][(i - 320) as usize];
        let px: Vec<u8> = match i - 320 {
            0 => (0..n).map(|_| r.upto(255) as u8).collect(),
            1 => (0..n).map(|_| (r.upto(40) == 0) as u8 * 3).collect(),
            2 => vec![9; n],
            // noise, then nothing: the dictionary must adapt
            _ => (0..n).map(|i| if i < 100_000 { r.upto(255) as u8 } else { 0 }).collect(),
        };
        return check(cx, &px);
    }
    let px: Vec<u8> = match i / 40 {
        0 => vec![if two { 255 } else { 0 }; n],
        1 => (0..n).map(|i| (i % 2) as u8 * if two { 255 } else { 1 }).collect(),
        2 => (0..n).map(|i| if two { i as u8 } else { i as u8 & 15 }).collect(),
        3 => (0..n).map(|_| r.upto(if two { 255 } else { 1 }) as u8).collect(),
        4 => (0..n).map(|i| (i / if two { 1000 } else { 100 }) as u8).collect(),
        5 => {
            let tile: Vec<u8> = (0..if two { 640 } else { 37 }).map(|_| r.upto(255) as u8).collect();
            (0..n).map(|i| tile[i % tile.len()]).collect()
        }
        // every pair of symbols is new for as long as possible
        6 => (0..n).map(|i| if i % 2 == 0 { (i / 2) as u8 } else { (i / 2 / if two { 256 } else { 255 } + i / 2) as u8 }).collect(),
        _ => (0..n).map(|i| ((i % 300) * (i / 300) / if two { 70 } else { 7 }) as u8).collect(),
    };
    check(cx, &px)
}
