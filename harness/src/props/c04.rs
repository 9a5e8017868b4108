//! C04: block decoding reports exactly what the file contains
use crate::engine::*;
use crate::generate::*;
use crate::refgif::*;
use crate::view::*;
use gift::block::*;

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        level: "exploration",
        rule: "well-formed files with every block type in any allowed place and any field values, written by the \
               reference writer, are decoded to blocks, and every getter of every block is compared with the file's \
               bytes; plus all 256 values of each flags byte, extension label and sub-block length; non-trivial: the \
               file has an extension or an image; distinct by file bytes",
        assumptions: &["the reference writer in refgif.rs writes GIF89a correctly"],
        quick: 750_000,
        thorough: 3_000_000,
        run,
        enum_n,
        enum_run,
        must: &[
            "gct",
            "lct",
            "loop count",
            "comment",
            "plain text",
            "unknown ext",
            "other app",
            "area:0",
            "interlaced",
            "disposal:reserved",
            "transparent",
        ],
    }
}

fn run(cx: &mut Cx) -> R {
    let m = gif(cx.t, &GifOpts::blocks());
    classify(cx, &m);
    check(cx, &m)
}

fn check(cx: &mut Cx, m: &[RBlock]) -> R {
    let (bytes, _) = write(m);
    cx.input(&bytes);
    cx.sample(|| summary(m));
    cx.nontrivial(m.len() > 3);
    let it = dec(feed(&bytes), Some(None)).into_blocks();
    let s = collect(it, bound(bytes.len()), |b| b);
    if let Some(e) = s.err_name() {
        return Err(format!("block {}: {e} for a well-formed file", s.items.len()));
    }
    let got: Vec<RBlock> = s.items.iter().map(block_view).collect();
    cmp_blocks(&got, m)?;
    for (i, (g, w)) in s.items.iter().zip(m).enumerate() {
        derived(g, w).map_err(|e| format!("block {i}: {e}"))?;
    }
    Ok(())
}

fn config(c: ColorTableConfig, flags: u8, sorted: u8) -> R {
    let n = table_len(flags);
    let got = (c.existence() == ColorTableExistence::Present, c.ordering() == ColorTableOrdering::Sorted, c.len());
    let want = (n > 0, flags & sorted != 0, n);
    if got != want || c.size_bytes() != 3 * n || c.is_empty() != (n == 0) {
        return Err(format!("colour table configuration {c:?} for flags {flags:#04x}"));
    }
    Ok(())
}

/// Values which the library derives from the fields
pub fn derived(g: &Block, w: &RBlock) -> R {
    let sub = !matches!(
        w,
        RBlock::Header(_) | RBlock::Screen { .. } | RBlock::Gct(_) | RBlock::Lct(_) | RBlock::Desc { .. } | RBlock::Trailer
    );
    if g.has_sub_blocks() != sub {
        return Err(format!("has_sub_blocks {} for {}", g.has_sub_blocks(), short(w)));
    }
    match (g, w) {
        (Block::LogicalScreenDesc(b), RBlock::Screen { flags, .. }) => {
            config(b.color_table_config(), *flags, 0x08)?;
            let want = 1u16 << (((flags >> 4) & 7) + 1);
            if b.color_resolution() != want {
                return Err(format!("colour resolution {} for flags {flags:#04x}", b.color_resolution()));
            }
        }
        (Block::ImageDesc(b), RBlock::Desc { flags, w, h, .. }) => {
            config(b.color_table_config(), *flags, 0x20)?;
            if b.interlaced() != (flags & 0x40 != 0) {
                return Err(format!("interlaced {} for flags {flags:#04x}", b.interlaced()));
            }
            if b.image_sz() != *w as usize * *h as usize {
                return Err(format!("image size {} for {w}x{h}", b.image_sz()));
            }
        }
        (Block::GraphicControl(b), RBlock::Gce { flags, tidx, .. }) => {
            let want = match (flags >> 2) & 7 {
                0 => DisposalMethod::NoAction,
                1 => DisposalMethod::Keep,
                2 => DisposalMethod::Background,
                3 => DisposalMethod::Previous,
                n => DisposalMethod::Reserved(n),
            };
            if b.disposal_method() != want {
                return Err(format!("disposal {:?} for flags {flags:#04x}", b.disposal_method()));
            }
            if b.user_input() != (flags & 2 != 0) {
                return Err(format!("user input {} for flags {flags:#04x}", b.user_input()));
            }
            let t = if flags & 1 != 0 { Some(*tidx) } else { None };
            if b.transparent_color() != t {
                return Err(format!("transparent {:?} for flags {flags:#04x} index {tidx}", b.transparent_color()));
            }
        }
        (Block::Application(b), RBlock::App(s)) => {
            if b.loop_count() != loop_count(s) {
                return Err(format!("loop count {:?} for {s:02x?}", b.loop_count()));
            }
        }
        (Block::GlobalColorTable(b), RBlock::Gct(c)) => {
            if b.len() != c.len() / 3 || b.is_empty() {
                return Err(format!("global table of {} entries", b.len()));
            }
        }
        (Block::LocalColorTable(b), RBlock::Lct(c)) => {
            if b.len() != c.len() / 3 || b.is_empty() {
                return Err(format!("local table of {} entries", b.len()));
            }
        }
        _ => {}
    }
    Ok(())
}

/// All flags bytes, extension labels and sub-block lengths; large files
fn enum_n(_: Tier) -> u64 {
    3 * 256 + 256 + 255 + BIG
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    if i >= 4 * 256 + 255 {
        let mut r = cx.t.bulk();
        cx.class("large file");
        return check(cx, &big(i - 4 * 256 - 255, &mut r));
    }
    let x = i as u8;
    let mut m = vec![RBlock::Header(*b"89a")];
    let col = |flags: u8| -> Vec<u8> { (0..3 * table_len(flags)).map(|k| (k as u8).wrapping_mul(5)).collect() };
    let scr = if i < 256 { x } else { 0x70 };
    m.push(RBlock::Screen { w: 0x0102, h: 0x0304, flags: scr, bg: 5, aspect: 6 });
    if scr & 0x80 != 0 {
        m.push(RBlock::Gct(col(scr)));
    }
    if (256..512).contains(&i) {
        for (delay, tidx) in [(0x0102, 3), (0xFF00, 0xFF), (0x00FF, 0)] {
            m.push(RBlock::Gce { flags: x, delay, tidx });
            m.push(RBlock::PlainText(vec![]));
        }
    }
    if (512..768).contains(&i) {
        m.push(RBlock::Desc { l: 0x0708, t: 0x090A, w: 3, h: 9, flags: x });
        if x & 0x80 != 0 {
            m.push(RBlock::Lct(col(x)));
        }
        let px: Vec<u8> = (0..27).collect();
        m.push(RBlock::Image(simple_image(&px)));
    }
    if (768..1024).contains(&i) && ![0x01, 0xF9, 0xFE, 0xFF].contains(&x) {
        m.push(RBlock::Unknown(x, vec![vec![x], vec![1, 2, 3]]));
    }
    if i >= 1024 {
        let n = (i - 1023) as usize;
        let s: Vec<u8> = (0..n).map(|k| k as u8 ^ 0x2C).collect();
        m.push(RBlock::Comment(vec![s.clone(), s.clone()]));
        m.push(RBlock::App(vec![s.clone()]));
        m.push(RBlock::PlainText(vec![s.clone(), vec![0]]));
        m.push(RBlock::Unknown(0x42, vec![s]));
    }
    m.push(RBlock::Trailer);
    check(cx, &m)
}
