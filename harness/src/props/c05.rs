//! C05: block sequences round-trip losslessly
use crate::engine::*;
use crate::generate::*;
use crate::io::Sink;
use crate::refgif::*;
use crate::view::*;
use gift::Encoder;
use gift::block::Block;

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        level: "exploration",
        rule: "block sequences built through the API are encoded and decoded again; files (well-formed with unusual \
               LZW streams, or mutated and sloppy ones which decode without an error) are decoded, re-encoded and \
               decoded again; non-trivial: 4 or more blocks; distinct by file bytes",
        assumptions: &[],
        quick: 900_000,
        thorough: 3_600_000,
        run,
        enum_n,
        enum_run,
        must: &["from blocks", "from file", "from sloppy file", "sloppy file with an image", "lct", "area:0", "other app"],
    }
}

fn encode(blocks: Vec<Block>) -> Result<Vec<u8>, String> {
    let sink = Sink::plain();
    let mut e = Encoder::new(sink.clone()).into_block_enc();
    for (i, b) in blocks.into_iter().enumerate() {
        e.encode(b).map_err(|e| format!("encoding block {i}: {}", err_name(&e)))?;
    }
    drop(e);
    Ok(sink.bytes())
}

fn decode(bytes: &[u8]) -> (Vec<Block>, Option<String>) {
    let s = collect(dec(feed(bytes), None).into_blocks(), bound(bytes.len()), |b| b);
    let e = s.err_name();
    (s.items, e)
}

fn same(a: &[Block], b: &[Block]) -> R {
    for (i, (a, b)) in a.iter().zip(b).enumerate() {
        if a != b {
            return Err(format!("block {i} was {} and is now {}", short(&block_view(a)), short(&block_view(b))));
        }
    }
    if a.len() != b.len() {
        return Err(format!("{} blocks became {}", a.len(), b.len()));
    }
    Ok(())
}

fn run(cx: &mut Cx) -> R {
    let kind = cx.t.weighted(&[3, 2, 4]);
    if kind == 0 {
        cx.class("from blocks");
        let mut o = GifOpts::blocks();
        o.lzw = false;
        let m = gif(cx.t, &o);
        classify(cx, &m);
        return from_blocks(cx, &m);
    }
    let bytes = if kind == 1 {
        cx.class("from file");
        let m = gif(cx.t, &GifOpts::blocks());
        classify(cx, &m);
        cx.sample(|| summary(&m));
        write(&m).0
    } else {
        let (b, c) = wild(cx.t);
        cx.class(c);
        b
    };
    from_file(cx, &bytes, kind == 2)
}

fn from_blocks(cx: &mut Cx, m: &[RBlock]) -> R {
    cx.sample(|| summary(m));
    let blocks: Vec<Block> = m.iter().map(to_gift).collect();
    let bytes = encode(blocks.clone())?;
    cx.input(&bytes);
    cx.nontrivial(blocks.len() > 3);
    let (got, err) = decode(&bytes);
    if let Some(e) = err {
        return Err(format!("decoding what was encoded: {e} at block {}", got.len()));
    }
    same(&blocks, &got)
}

fn from_file(cx: &mut Cx, bytes: &[u8], sloppy: bool) -> R {
    cx.input(bytes);
    let s = collect(dec(feed(bytes), Some(Some(1 << 22))).into_blocks(), bound(bytes.len()), |b| b);
    if s.err.is_some() {
        cx.class("undecodable");
        return Ok(());
    }
    let first = s.items;
    cx.nontrivial(first.len() > 3);
    if sloppy {
        cx.class("from sloppy file");
        cx.class_if(first.iter().any(|b| matches!(b, Block::ImageData(_))), "sloppy file with an image");
        cx.sample(|| first.iter().map(|b| short(&block_view(b))).collect::<Vec<_>>().join(" "));
    }
    let again = encode(first.clone())?;
    let (second, err) = decode(&again);
    if let Some(e) = err {
        return Err(format!("decoding the re-encoded file: {e} at block {}", second.len()));
    }
    same(&first, &second)
}

/// Large files
fn enum_n(_: Tier) -> u64 {
    2 * BIG
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    let mut r = cx.t.bulk();
    let m = big(i / 2, &mut r);
    cx.class("large file");
    if i % 2 == 0 { from_blocks(cx, &m) } else { from_file(cx, &write(&m).0, false) }
}
