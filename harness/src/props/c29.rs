//! C29: blocks are coded the same whatever surrounds them
use crate::engine::*;
use crate::generate::*;
use crate::io::Sink;
use crate::refgif::*;
use crate::view::*;
use gift::Encoder;
use gift::block::Block;

pub fn prop() -> Prop {
    Prop {
        id: "C29",
        level: "exploration",
        rule: "blocks of 1..3 generated files are encoded in drawn orders, whether or not that makes a file, and compared \
               with each block encoded alone; frames and extensions of 1..3 files are put together to new files, left \
               out, repeated and moved, and what the iterators deliver for them is compared with what they deliver in \
               the original files; non-trivial: 4 or more blocks taken; distinct by bytes",
        assumptions: &["the original files decode without an error (else nothing is compared)"],
        quick: 1_200_000,
        thorough: 4_800_000,
        run,
        enum_n,
        enum_run,
        must: &["encode", "no file", "decode", "several files", "repeated", "left out", "two images"],
    }
}

fn encode_all(blocks: &[Block]) -> Result<Vec<u8>, String> {
    let sink = Sink::plain();
    let mut e = Encoder::new(sink.clone()).into_block_enc();
    for (i, b) in blocks.iter().enumerate() {
        e.encode(b.clone()).map_err(|e| format!("block {i} is refused: {}", err_name(&e)))?;
    }
    drop(e);
    Ok(sink.bytes())
}

fn run(cx: &mut Cx) -> R {
    let enc = cx.t.flag();
    let n = cx.t.usize(1, 3);
    let o = GifOpts { lzw: !enc, area: 400, ..GifOpts::blocks() };
    let files: Vec<Vec<RBlock>> = (0..n).map(|_| gif(cx.t, &o)).collect();
    cx.class_if(n > 1, "several files");
    if enc { encode(cx, &files) } else { decode(cx, &files) }
}

/// A new order: a part of the old one, something moved, repeated or new
fn order(cx: &mut Cx, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = match cx.t.draw(3) {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        2 => (0..n).filter(|_| cx.t.flag()).collect(),
        _ => {
            let m = n.min(40);
            (0..m).map(|_| cx.t.usize(0, n - 1)).collect()
        }
    };
    for _ in 0..cx.t.usize(0, 4) {
        if v.is_empty() {
            break;
        }
        let i = cx.t.usize(0, v.len() - 1);
        let j = cx.t.usize(0, v.len() - 1);
        match cx.t.draw(2) {
            0 => v.swap(i, j),
            1 => v.insert(i, v[j]),
            _ => {
                v.remove(i);
            }
        }
    }
    let mut seen = vec![0; n];
    v.iter().for_each(|i| seen[*i] += 1);
    cx.class_if(seen.contains(&0), "left out");
    cx.class_if(seen.iter().any(|n| *n > 1), "repeated");
    v
}

fn encode(cx: &mut Cx, files: &[Vec<RBlock>]) -> R {
    cx.class("encode");
    let all: Vec<Block> = files.iter().flatten().map(to_gift).collect();
    let alone = all.iter().map(|b| encode_all(std::slice::from_ref(b))).collect::<Result<Vec<_>, _>>()?;
    let v = order(cx, all.len());
    let taken: Vec<Block> = v.iter().map(|i| all[*i].clone()).collect();
    let got = encode_all(&taken)?;
    cx.class_if(parse(&got).is_err(), "no file");
    cx.input(&got);
    cx.nontrivial(v.len() >= 4);
    cx.sample(|| format!("{} of {} blocks, {} bytes", v.len(), all.len(), got.len()));
    let mut at = 0;
    for (k, i) in v.iter().enumerate() {
        let w = &alone[*i];
        if got.get(at..at + w.len()) != Some(&w[..]) {
            return Err(format!("block {k} ({}) is encoded otherwise than alone", short(&block_view(&all[*i]))));
        }
        at += w.len();
    }
    if at != got.len() {
        return Err(format!("{} bytes more than the blocks need", got.len() - at));
    }
    Ok(())
}

/// Beginnings of the frames and single extensions behind the preamble's tables
fn units(m: &[RBlock]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut from = None;
    for (i, b) in m.iter().enumerate() {
        match b {
            RBlock::Header(_) | RBlock::Screen { .. } | RBlock::Gct(_) | RBlock::Trailer => continue,
            RBlock::Gce { .. } | RBlock::Desc { .. } | RBlock::Lct(_) => {
                from.get_or_insert(i);
                continue;
            }
            RBlock::Image(_) | RBlock::PlainText(_) => v.push((from.take().unwrap_or(i), i + 1)),
            _ if from.is_none() => v.push((i, i + 1)),
            _ => {}
        }
    }
    v
}

fn decode(cx: &mut Cx, files: &[Vec<RBlock>]) -> R {
    cx.class("decode");
    // what each unit is in its own file: bytes, blocks and frames
    let mut all = vec![];
    for m in files {
        let (b, ends) = write(m);
        let bl = blocks(feed(&b), m.len() + 2, Some(None));
        let fr = frames(feed(&b), m.len() + 2, Some(None));
        let images = m.iter().filter(|b| matches!(b, RBlock::Image(_))).count();
        if bl.err.is_some() || fr.err.is_some() || bl.items.len() != m.len() || fr.items.len() != images {
            cx.class("not decoded");
            return Ok(());
        }
        let mut k = 0;
        for (i, j) in units(m) {
            let n = m[i..j].iter().filter(|b| matches!(b, RBlock::Image(_))).count();
            all.push((b[ends[i - 1]..ends[j - 1]].to_vec(), bl.items[i..j].to_vec(), fr.items[k..k + n].to_vec()));
            k += n;
        }
        if k != images {
            return Err("harness: images outside units".into());
        }
    }
    if all.is_empty() {
        return Ok(());
    }
    let v = order(cx, all.len());
    let host = &files[cx.t.usize(0, files.len() - 1)];
    let start = 2 + matches!(host[2], RBlock::Gct(_)) as usize;
    let (mut b, _) = write(&host[..start]);
    let (mut wb, mut wf): (Vec<RBlock>, Vec<RFrame>) = (vec![], vec![]);
    for i in &v {
        let (bytes, bl, fr) = &all[*i];
        b.extend_from_slice(bytes);
        wb.extend_from_slice(bl);
        wf.extend_from_slice(fr);
    }
    b.push(0x3B);
    cx.input(&b);
    cx.class_if(wf.len() > 1, "two images");
    cx.nontrivial(wb.len() >= 4);
    cx.sample(|| format!("{} of {} units of {} files, {} frames", v.len(), all.len(), files.len(), wf.len()));
    let bl = blocks(feed(&b), wb.len() + start + 4, Some(None));
    if let Some(e) = bl.err_name() {
        return Err(format!("blocks: {e} after {} blocks", bl.items.len()));
    }
    if bl.items.len() != start + wb.len() + 1 {
        return Err(format!("{} blocks instead of {}", bl.items.len(), start + wb.len() + 1));
    }
    cmp_blocks(&bl.items[start..start + wb.len()], &wb)?;
    let fr = frames(feed(&b), wf.len() + 2, Some(None));
    if let Some(e) = fr.err_name() {
        return Err(format!("frames: {e} after {} frames", fr.items.len()));
    }
    cmp_frames(&fr.items, &wf)
}

/// Enumerated: large files
fn enum_n(_: Tier) -> u64 {
    2 * BIG
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    let mut r = cx.t.bulk();
    let m = vec![big(i / 2, &mut r)];
    cx.class("large file");
    if i % 2 == 0 { encode(cx, &m) } else { decode(cx, &m) }
}
