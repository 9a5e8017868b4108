//! C25: diagnostics describe what happened and have no influence
use super::common::*;
use crate::engine::*;
use crate::generate::*;
use crate::io::*;
use crate::refgif::*;
use crate::view::*;
use gift::block::{Block, Frame};
use gift::{Encoder, Error};
use log::LevelFilter;
use std::error::Error as _;
use std::io::ErrorKind;

pub fn prop() -> Prop {
    Prop {
        id: "C25",
        level: "exploration",
        rule: "files of all sorts are decoded as blocks, frames, steps and looping steps, and blocks, frames and steps \
               are encoded, without log messages and with those of a random level recorded, and the results compared; \
               the text, source and conversions of every error which occurs are compared with those of all other kinds; \
               non-trivial: an error occurred, or 4 or more items were decoded or encoded; distinct by input",
        assumptions: &[],
        quick: 500_000,
        thorough: 3_000_000,
        run,
        enum_n,
        enum_run,
        must: &[
            "blocks",
            "frames",
            "steps",
            "looping",
            "encode blocks",
            "encode frames",
            "encode steps",
            "reader error",
            "writer error",
            "error text",
            "level OFF",
            "level WARN",
            "level DEBUG",
            "level TRACE",
        ],
    }
}

/// One of each kind which wraps nothing
fn kinds() -> Vec<Error> {
    use Error::*;
    vec![
        MalformedHeader,
        UnsupportedVersion(*b"88a"),
        InvalidBlockCode,
        InvalidBlockSequence,
        MalformedGraphicControlExtension,
        UnexpectedEndOfFile,
        InvalidLzwData,
        TooLargeImage,
        IncompleteImageData,
        InvalidFrameDimensions,
        MissingColorTable,
        InvalidColorIndex,
        InvalidRasterDimensions,
    ]
}

/// What an error says about itself
fn describes(e: &Error) -> R {
    let text = e.to_string();
    let name = err_name(e);
    if text.trim().is_empty() {
        return Err(format!("{name} has an empty text"));
    }
    if format!("{e:?}").trim().is_empty() {
        return Err(format!("{name} has an empty debug text"));
    }
    let source = e.source().map(|s| s.to_string());
    let wrapped = match e {
        Error::Io(e) => Some(e.to_string()),
        Error::TryFromInt(e) => Some(e.to_string()),
        _ => None,
    };
    if source != wrapped {
        return Err(format!("{name}: source() is {source:?} instead of {wrapped:?}"));
    }
    if let Some(w) = wrapped {
        if text != w {
            return Err(format!("{name} is displayed as {text:?} instead of {w:?}"));
        }
        return Ok(());
    }
    if let Error::UnsupportedVersion(v) = e {
        for i in 0..24 {
            let mut o = *v;
            o[i / 8] ^= 1 << (i % 8);
            if Error::UnsupportedVersion(o).to_string() == text {
                return Err(format!("the versions {v:?} and {o:?} are both displayed as {text:?}"));
            }
        }
    }
    for k in kinds() {
        if err_name(&k) != name && k.to_string() == text {
            return Err(format!("{name} and {} are both displayed as {text:?}", err_name(&k)));
        }
    }
    Ok(())
}

/// Items, error and end of a decoding
type Outcome = (u64, usize, Option<String>, bool);

fn outcome<T: std::hash::Hash>(cx: &mut Cx, s: Seq<T>) -> Result<Outcome, String> {
    if let Some(e) = &s.err {
        cx.class("error text");
        describes(e)?;
    }
    Ok((hash(&s.items), s.items.len(), s.err_name(), s.stopped))
}

fn hash<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::{DefaultHasher, Hasher};
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn block_hash(b: Block) -> u64 {
    match b {
        Block::ImageData(b) => hash(&b.data()),
        b => hash(&format!("{:?}", block_view(&b))),
    }
}

fn frame_hash(f: Frame) -> u64 {
    let mut v = frame_view(&f);
    let px = std::mem::take(&mut v.pixels);
    hash(&(px, format!("{v:?}")))
}

fn levels(cx: &mut Cx) -> LevelFilter {
    let l = cx.t.pick(&[
        LevelFilter::Trace,
        LevelFilter::Debug,
        LevelFilter::Info,
        LevelFilter::Warn,
        LevelFilter::Error,
        LevelFilter::Off,
    ]);
    cx.class(format!("level {l}"));
    l
}

fn run(cx: &mut Cx) -> R {
    if cx.t.chance(1, 4) {
        return encode(cx);
    }
    let bytes = match cx.t.weighted(&[2, 2, 1]) {
        0 => {
            let mut o = GifOpts::steps();
            o.area = 2000;
            write(&gif(cx.t, &o)).0
        }
        1 => {
            let (b, c) = wild(cx.t);
            cx.class(c);
            b
        }
        _ => {
            let (mut b, _) = write(&gif(cx.t, &GifOpts::tiny()));
            let n = cx.t.usize(0, b.len());
            b.truncate(n);
            b
        }
    };
    cx.input(&bytes);
    let mut plan = if cx.t.flag() { io_plan(cx.t) } else { Plan::default() };
    if cx.t.chance(1, 4) {
        let at = cx.t.usize(0, bytes.len());
        let kind = cx.t.pick(&[ErrorKind::Other, ErrorKind::PermissionDenied, ErrorKind::TimedOut, ErrorKind::InvalidData]);
        plan.fail = Some((at, kind, cx.t.draw(1000)));
    }
    let level = levels(cx);
    let kind = cx.t.draw(3);
    decode(cx, &bytes, &plan, level, kind)
}

fn decode(cx: &mut Cx, bytes: &[u8], plan: &Plan, level: LevelFilter, kind: u64) -> R {
    let lim = Some(Some(1 << 18));
    let go = |cx: &mut Cx, l: LevelFilter| -> Result<Outcome, String> {
        let r = Feed::with_plan(bytes, plan.clone());
        logging_at(l, || match kind {
            0 => {
                let s = collect(dec(r, lim).into_blocks(), bound(bytes.len()), block_hash);
                outcome(cx, s)
            }
            1 => {
                let s = collect(dec(r, lim).into_frames(), bound(bytes.len()), frame_hash);
                outcome(cx, s)
            }
            k => {
                let view = |s: gift::Step| hash(&(s.raster().as_u8_slice(), s.delay_time_cs(), s.transparent_color()));
                let s = if k == 2 {
                    collect(dec(r, lim).into_steps(), bound(bytes.len()), view)
                } else {
                    collect(dec(r, lim).into_iter(), 12, view)
                };
                outcome(cx, s)
            }
        })
    };
    let what = ["blocks", "frames", "steps", "looping"][kind as usize];
    cx.class(what);
    let quiet = go(cx, LevelFilter::Off)?;
    let loud = go(cx, level)?;
    cx.class_if(quiet.2.as_deref().is_some_and(|e| e.starts_with("Io")), "reader error");
    cx.nontrivial(quiet.1 > 3 || quiet.2.is_some());
    cx.sample(|| format!("{} bytes as {what}: {} items, {:?}, logging {level}", bytes.len(), quiet.1, quiet.2));
    if quiet != loud {
        return Err(format!("{what}: {quiet:?} without log messages, {loud:?} with level {level}"));
    }
    Ok(())
}

fn encode(cx: &mut Cx) -> R {
    let level = levels(cx);
    let mut plan = Plan::default();
    if cx.t.chance(1, 3) {
        plan.fail = Some((cx.t.usize(0, 200), cx.t.pick(&[ErrorKind::Other, ErrorKind::StorageFull]), cx.t.draw(1000)));
    }
    let mut o = GifOpts::steps();
    o.area = 2000;
    o.lzw = false;
    let m = gif(cx.t, &o);
    cx.key(format!("{m:?} {plan:?}"));
    cx.sample(|| summary(&m));
    let (pre, frames) = group(&m);
    let kind = cx.t.draw(2);
    let steps: Vec<StepM> = frames
        .iter()
        .map(|f| StepM {
            w: 1 + f.w as u32 % 9,
            h: 1,
            px: (0..1 + f.w % 9).map(|i| i as u8).collect(),
            pal: (0..16).map(|i| [i, f.h as u8, f.flags]).collect(),
            delay: Some(f.gce.map(|g| g.1)),
            disp: Some(f.disposal()),
            trans: Some(f.trans()),
            order: 0,
        })
        .collect();
    let what = ["encode blocks", "encode frames", "encode steps"][kind as usize];
    cx.class(what);
    cx.nontrivial(m.len() > 3);
    let go = |cx: &mut Cx, l: LevelFilter| -> Result<(Vec<u8>, Option<String>), String> {
        let sink = Sink::new(plan.clone(), false);
        let err = logging_at(l, || match kind {
            0 => {
                let mut e = Encoder::new(sink.clone()).into_block_enc();
                m.iter().try_for_each(|b| e.encode(to_gift(b)))
            }
            1 => {
                let mut e = Encoder::new(sink.clone()).into_frame_enc();
                e.encode_preamble(&preamble_to_gift(&pre))
                    .and_then(|_| frames.iter().try_for_each(|f| e.encode_frame(&frame_to_gift(f))))
                    .and_then(|_| e.encode_trailer())
            }
            _ => {
                let mut e = Encoder::new(sink.clone()).into_step_enc();
                steps.iter().try_for_each(|s| e.encode_step(&s.to_gift()))
            }
        })
        .err();
        if let Some(e) = &err {
            cx.class("writer error");
            describes(e)?;
        }
        Ok((sink.bytes(), err.as_ref().map(err_name)))
    };
    let quiet = go(cx, LevelFilter::Off)?;
    let loud = go(cx, level)?;
    if quiet != loud {
        return Err(format!(
            "{what}: {} bytes, {:?} without log messages, {} bytes, {:?} with level {level}",
            quiet.0.len(),
            quiet.1,
            loud.0.len(),
            loud.1
        ));
    }
    Ok(())
}

/// Enumerated: all kinds of errors; large files
fn enum_n(_: Tier) -> u64 {
    2 + 4 * BIG
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    cx.key(i);
    match i {
        0 => {
            cx.class("error text");
            cx.nontrivial(true);
            for e in kinds() {
                describes(&e)?;
            }
            for v in [b"88a", b"99a", b"87b", b"\0\0\0", b"\xFF\xFE\xFD", b"   ", b"89A"] {
                describes(&Error::UnsupportedVersion(*v))?;
            }
            Ok(())
        }
        1 => {
            cx.nontrivial(true);
            use ErrorKind::*;
            for (n, kind) in [NotFound, PermissionDenied, BrokenPipe, WouldBlock, InvalidData, TimedOut, WriteZero, UnexpectedEof, Other]
                .into_iter()
                .enumerate()
            {
                let e = Error::from(std::io::Error::new(kind, Token(n as u64)));
                carries(&e, kind, n as u64)?;
                describes(&e)?;
                // one without a payload
                let e = Error::from(std::io::Error::from(kind));
                match &e {
                    Error::Io(i) if i.kind() == kind => describes(&e)?,
                    e => return Err(format!("an I/O error of kind {kind:?} became {}", err_name(e))),
                }
            }
            let e = Error::from(u8::try_from(300u32).unwrap_err());
            match &e {
                Error::TryFromInt(_) => describes(&e),
                e => Err(format!("a conversion error became {}", err_name(e))),
            }
        }
        i => {
            let i = i - 2;
            let mut r = cx.t.bulk();
            cx.class("large file");
            let bytes = write(&big(i / 4, &mut r)).0;
            cx.input(&bytes);
            // a debug message shows the whole block for each sub-block
            decode(cx, &bytes, &Plan::default(), LevelFilter::Info, i % 4)
        }
    }
}
