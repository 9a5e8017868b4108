//! C01: image data survives encoding followed by decoding
use crate::engine::*;
use crate::generate::*;
use crate::io::Sink;
use crate::refgif::*;
use crate::view::*;
use gift::Encoder;

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        level: "exploration",
        rule: "images of 1..300,000 pixels (and up to 33.5 million in the enumerated part) with 1..256 index values and \
               varied content are written with BlockEnc or FrameEnc and read back; non-trivial: at least 2 pixels \
               and 2 different indices; distinct by dimensions and pixels",
        assumptions: &["images of 300,000 to 33.5 million pixels, of which 15 are tried, behave like the smaller ones"],
        quick: 720_000,
        thorough: 2_880_000,
        run,
        enum_n,
        enum_run,
        must: &["index 255"],
    }
}

fn run(cx: &mut Cx) -> R {
    let (w, h) = dims(cx.t, 300_000);
    let n_sym = nsym(cx.t);
    let px = pixels(cx.t, w as usize * h as usize, n_sym);
    let level = cx.t.draw(1);
    check(cx, w, h, &px, level)
}

fn check(cx: &mut Cx, w: u16, h: u16, px: &[u8], level: u64) -> R {
    cx.key((w, h, px));
    cx.nontrivial(px.len() >= 2 && px.iter().any(|p| *p != px[0]));
    cx.sample(|| format!("{w}x{h} via {level}: {:?}{}", &px[..px.len().min(48)], if px.len() > 48 { "…" } else { "" }));
    let max = px.iter().copied().max().unwrap_or(0);
    cx.class(format!("min code size {}", (8 - max.leading_zeros()).max(2)));
    cx.class_if(max == 255, "index 255");
    let sink = Sink::plain();
    if level == 0 {
        let mut e = Encoder::new(sink.clone()).into_block_enc();
        let model = [
            RBlock::Header(*b"89a"),
            RBlock::Screen { w, h, flags: 0, bg: 0, aspect: 0 },
            RBlock::Desc { l: 0, t: 0, w, h, flags: 0 },
            RBlock::Image(RImage { pixels: px.to_vec(), min: 0, chunks: vec![] }),
            RBlock::Trailer,
        ];
        for b in &model {
            e.encode(to_gift(b)).map_err(|e| format!("encode: {}", err_name(&e)))?;
        }
    } else {
        let mut e = Encoder::new(sink.clone()).into_frame_enc();
        let pre = RPreamble { version: *b"89a", screen: (w, h, 0, 0, 0), ..RPreamble::default() };
        e.encode_preamble(&preamble_to_gift(&pre)).map_err(|e| format!("preamble: {}", err_name(&e)))?;
        let f = RFrame { gce: None, l: 0, t: 0, w, h, flags: 0, lct: None, pixels: px.to_vec() };
        e.encode_frame(&frame_to_gift(&f)).map_err(|e| format!("frame: {}", err_name(&e)))?;
        e.encode_trailer().map_err(|e| format!("trailer: {}", err_name(&e)))?;
    }
    let bytes = sink.bytes();
    if bytes.len() < 4000 {
        cx.info.input = Some(bytes.clone());
    }
    let s = blocks(feed(&bytes), bytes.len(), Some(None));
    if let Some(e) = s.err_name() {
        return Err(format!("{w}x{h}: decoding what was encoded gives {e}"));
    }
    let got = s.items.iter().filter_map(|b| match b {
        RBlock::Image(i) => Some(&i.pixels),
        _ => None,
    });
    let got: Vec<_> = got.collect();
    if got.len() != 1 {
        return Err(format!("{} images instead of one", got.len()));
    }
    if got[0] != px {
        let i = got[0].iter().zip(px).position(|(a, b)| a != b);
        return Err(format!(
            "{w}x{h}: {} pixels instead of {}, first difference at {i:?}: {:?} instead of {:?}",
            got[0].len(),
            px.len(),
            i.map(|i| got[0][i]),
            i.map(|i| px[i])
        ));
    }
    // how often was the dictionary reset? (for the distribution only)
    if let Ok(p) = parse(&bytes) {
        cx.class(match p.lzw[0].clears {
            0 | 1 => "resets:0",
            2 => "resets:1",
            _ => "resets:2+",
        });
    }
    Ok(())
}

/// Enumerated: every image of up to 7 pixels over 2 symbols and up to 4 over
/// 4; every constant image around sizes that matter; every single index value;
/// large images
fn enum_n(_: Tier) -> u64 {
    254 + 340 + 256 + 600 + 12 + 5
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    let i = i as usize;
    if i < 254 {
        // all binary strings of length 1..=7
        let code = i + 2;
        let len = code.ilog2() as usize;
        let px: Vec<u8> = (0..len).map(|b| ((code >> b) & 1) as u8).collect();
        return check(cx, len as u16, 1, &px, 0);
    }
    let i = i - 254;
    if i < 340 {
        // all base-4 strings of length 1..=4
        let (mut len, mut k) = (1, i);
        while k >= 4usize.pow(len) {
            k -= 4usize.pow(len);
            len += 1;
        }
        let px: Vec<u8> = (0..len).map(|b| ((k / 4usize.pow(b)) % 4) as u8).collect();
        return check(cx, len as u16, 1, &px, 1);
    }
    let i = i - 340;
    if i < 256 {
        // a value alone, and with zero
        check(cx, 1, 1, &[i as u8], 0)?;
        return check(cx, 3, 1, &[i as u8, 0, i as u8], 1);
    }
    let i = i - 256;
    if i < 600 {
        // constants of growing length
        check(cx, (i + 1) as u16, 1, &vec![(i % 256) as u8; i + 1], 0)?;
        return check(cx, 1, (i + 1) as u16, &vec![255; i + 1], 1);
    }
    let i = i - 600;
    if i >= 12 {
        // about the default size limit, and no pixels at all
        let mut r = cx.t.bulk();
        let (w, h, top) = [(5792, 5792, 255), (65535, 512, 0), (512, 65535, 3), (0, 7, 0), (0, 0, 0)][i - 12];
        let px: Vec<u8> = (0..w as usize * h as usize).map(|_| r.upto(top) as u8).collect();
        return check(cx, w, h, &px, 0);
    }
    let (w, h) = [(1200, 1200), (65535, 20), (20, 65535), (1000, 1000)][i % 4];
    let n = w as usize * h as usize;
    let mut r = cx.t.bulk();
    let px: Vec<u8> = match i / 4 {
        0 => (0..n).map(|_| r.upto(255) as u8).collect(),
        1 => (0..n).map(|_| r.upto(1) as u8).collect(),
        _ => vec![7; n],
    };
    check(cx, w, h, &px, 0)
}
