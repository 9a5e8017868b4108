//! C27: data are read and written as they are needed
use super::c16::{Work, perform, true_ends};
use super::common::*;
use crate::engine::*;
use crate::generate::*;
use crate::io::*;
use crate::refgif::*;
use crate::view::*;
use gift::{Decoder, Encoder};
use std::cell::Cell;
use std::io::Read;

pub fn prop() -> Prop {
    Prop {
        id: "C27",
        level: "exploration",
        rule: "well-formed files are decoded at three levels from readers which count the bytes taken, before and \
               after each call, with the file alone, followed by other bytes, or by another file decoded from the \
               same reader; files are written with three encoders into writers whose length is looked at after each \
               call; non-trivial: 2 or more images or 10 or more blocks; distinct by file and plan",
        assumptions: &["an item needs the bytes up to the end of its last block, and the preamble those up to the end of the \
                        first block which belongs to a frame"],
        quick: 900_000,
        thorough: 3_600_000,
        run,
        enum_n,
        enum_run,
        must: &["blocks", "frames", "steps", "preamble first", "encode", "two files", "split"],
    }
}

/// A reader which tells how much was taken
struct Count<'a, 'b> {
    feed: Feed<'a>,
    pos: &'b Cell<usize>,
    reads: &'b Cell<usize>,
}

impl Read for Count<'_, '_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.reads.set(self.reads.get() + 1);
        let r = self.feed.read(buf);
        self.pos.set(self.feed.pos);
        r
    }
}

fn run(cx: &mut Cx) -> R {
    let k = cx.t.draw(3);
    if k == 3 {
        let work = match cx.t.draw(2) {
            0 => Work::Blocks(gif(cx.t, &GifOpts { lzw: false, ..GifOpts::blocks() })),
            1 => {
                let (p, f) = group(&gif(cx.t, &GifOpts { lzw: false, ..GifOpts::blocks() }));
                Work::Frames(p, f)
            }
            _ => Work::Steps(draw_anim(cx.t, 5, 300)),
        };
        return encode(cx, &work);
    }
    let o = if k == 2 { GifOpts::steps() } else { GifOpts::blocks() };
    let m = gif(cx.t, &GifOpts { area: 600, ..o });
    classify(cx, &m);
    decode(cx, &m, k)
}

fn decode(cx: &mut Cx, m: &[RBlock], k: u64) -> R {
    let (mut b, ends) = write(m);
    let end = b.len();
    let after = cx.t.draw(2);
    match after {
        0 => {}
        1 => b.extend((0..300).map(|_| 0x21)),
        _ => {
            cx.class("two files");
            b.extend_from_within(..);
        }
    }
    let images: Vec<usize> = m.iter().zip(&ends).filter(|(b, _)| matches!(b, RBlock::Image(_))).map(|(_, e)| *e).collect();
    cx.nontrivial(images.len() > 1 || m.len() >= 10);
    let plan = if cx.t.flag() { io_plan(cx.t) } else { Plan::default() };
    cx.class_if(!plan.sizes.is_empty(), "split");
    cx.key((&b, k, &plan.sizes, &plan.intr));
    cx.info.input = if b.len() < 100_000 { Some(b.clone()) } else { None };
    cx.sample(|| format!("level {k}, {} blocks, {} bytes of {}", m.len(), end, b.len()));
    let (pos, reads) = (Cell::new(0), Cell::new(0));
    let mut c = Count { feed: Feed::with_plan(&b, plan), pos: &pos, reads: &reads };
    for base in [0, end] {
        if base > 0 && after < 2 {
            break;
        }
        let at = |what: String, want: usize| -> R {
            let got = pos.get() - base;
            if got > want {
                return Err(format!("{what}: {} bytes beyond its end at {want} were read", got - want));
            }
            if got < want {
                return Err(format!("{what}: delivered {} bytes before its end at {want}", want - got));
            }
            Ok(())
        };
        let idle = reads.get();
        let d = Decoder::new(&mut c).max_image_sz(None);
        let lazy = |what: &str| if reads.get() == idle { Ok(()) } else { Err(format!("{what} reads before an item is asked for")) };
        let n = match k {
            0 => {
                cx.class("blocks");
                let mut it = d.into_blocks();
                lazy("into_blocks")?;
                let mut i = 0;
                while let Some(x) = it.next() {
                    if x.is_err() {
                        return Ok(cx.class("not decoded"));
                    }
                    if i < ends.len() {
                        at(format!("block {i} ({})", short(&m[i])), ends[i])?;
                    }
                    i += 1;
                }
                i == ends.len()
            }
            1 => {
                cx.class("frames");
                let mut it = d.into_frames();
                lazy("into_frames")?;
                if cx.t.flag() {
                    // a control for plain text counts as a beginning
                    let first = m.iter().position(|b| matches!(b, RBlock::Gce { .. } | RBlock::Desc { .. }));
                    if let Some(first) = first {
                        cx.class("preamble first");
                        if it.preamble().is_err() {
                            return Ok(cx.class("not decoded"));
                        }
                        let got = pos.get() - base;
                        if got > ends[first] {
                            return Err(format!("preamble: {} bytes beyond the beginning of the first frame were read", got - ends[first]));
                        }
                    }
                }
                let mut i = 0;
                while let Some(x) = it.next() {
                    if x.is_err() {
                        return Ok(cx.class("not decoded"));
                    }
                    if i < images.len() {
                        at(format!("frame {i}"), images[i])?;
                    }
                    i += 1;
                }
                i == images.len()
            }
            _ => {
                cx.class("steps");
                let mut it = d.into_steps();
                lazy("into_steps")?;
                let mut i = 0;
                while let Some(x) = it.next() {
                    if x.is_err() {
                        return Ok(cx.class("not decoded"));
                    }
                    if i < images.len() {
                        at(format!("step {i}"), images[i])?;
                    }
                    i += 1;
                }
                i == images.len()
            }
        };
        // wrong items and errors are the matter of C04, C11 and C12
        if !n {
            return Ok(cx.class("not decoded"));
        }
        at("end".into(), end)?;
    }
    Ok(())
}

fn encode(cx: &mut Cx, work: &Work) -> R {
    cx.class("encode");
    let sink = Sink::new(if cx.t.flag() { io_plan(cx.t) } else { Plan::default() }, false);
    // nothing is written before there is something to write
    {
        let b = Encoder::new(sink.clone()).into_block_enc();
        let f = Encoder::new(sink.clone()).into_frame_enc();
        let s = Encoder::new(sink.clone()).into_step_enc().with_loop_count(3);
        if !sink.is_empty() {
            return Err(format!("{} bytes are written before anything is encoded", sink.len()));
        }
        drop((b, f, s));
    }
    if !sink.is_empty() {
        return Err("encoders which were not used write bytes".into());
    }
    let log = perform(work, &sink);
    let whole = sink.bytes();
    cx.key(&whole);
    cx.nontrivial(log.len() >= 3);
    cx.info.input = if whole.len() < 100_000 { Some(whole.clone()) } else { None };
    cx.sample(|| format!("{} calls, {} bytes", log.len(), whole.len()));
    let Some(due) = true_ends(work, &whole).filter(|d| d.len() == log.len()) else {
        return Ok(cx.class("not encoded"));
    };
    for (i, (r, n)) in log.iter().enumerate() {
        if r.is_err() {
            return Ok(cx.class("not encoded"));
        }
        if *n != due[i] {
            return Err(format!("call {i}: {n} bytes are written when it returns instead of {}", due[i]));
        }
    }
    Ok(())
}

/// Enumerated: large files
fn enum_n(_: Tier) -> u64 {
    5 * BIG
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    let mut r = cx.t.bulk();
    let m = big(i / 5, &mut r);
    cx.class("large file");
    match i % 5 {
        3 => encode(cx, &Work::Blocks(m)),
        4 => {
            let (p, f) = group(&m);
            encode(cx, &Work::Frames(p, f))
        }
        k => decode(cx, &m, k),
    }
}
