//! C16: writer failures are reported and never corrupt what was written
use super::common::*;
use crate::engine::*;
use crate::generate::*;
use crate::io::*;
use crate::refgif::*;
use crate::view::*;
use gift::{Encoder, Error};
use std::io::ErrorKind;

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        level: "fault_enumeration",
        rule: "files are written with BlockEnc, FrameEnc and StepEnc into writers which accept data in drawn pieces \
               with interruptions, and which fail for good (with an error of a drawn kind, or by accepting nothing) at \
               every byte of small outputs and at drawn bytes and call edges of larger ones; non-trivial: 3 or more \
               calls; distinct by output and plan",
        assumptions: &["a writer which has failed keeps failing"],
        quick: 120_000,
        thorough: 720_000,
        run,
        enum_n,
        enum_run,
        must: &["level:0", "level:1", "level:2", "writes nothing", "short writes", "interrupts", "every byte fails"],
    }
}

const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::StorageFull,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::UnexpectedEof,
    ErrorKind::WriteZero,
];

pub enum Work {
    Blocks(Vec<RBlock>),
    Frames(RPreamble, Vec<RFrame>),
    Steps(AnimM),
}

/// Result and output length of each call
pub type Log = Vec<(Result<(), Error>, usize)>;

pub fn perform(work: &Work, sink: &Sink) -> Log {
    let mut log = vec![];
    match work {
        Work::Blocks(m) => {
            let mut e = Encoder::new(sink.clone()).into_block_enc();
            for b in m {
                let r = e.encode(to_gift(b));
                log.push((r, sink.len()));
            }
        }
        Work::Frames(p, f) => {
            let mut e = Encoder::new(sink.clone()).into_frame_enc();
            log.push((e.encode_preamble(&preamble_to_gift(p)), sink.len()));
            for f in f {
                log.push((e.encode_frame(&frame_to_gift(f)), sink.len()));
            }
            log.push((e.encode_trailer(), sink.len()));
        }
        Work::Steps(a) => {
            let mut e = Encoder::new(sink.clone()).into_step_enc();
            if let Some(n) = a.loops {
                e = e.with_loop_count(n);
            }
            if let Some(g) = &a.global {
                e = e.with_global_color_table(&palette(g));
            }
            for s in &a.steps {
                log.push((e.encode_step(&s.to_gift()), sink.len()));
            }
        }
    }
    log
}

fn run(cx: &mut Cx) -> R {
    let level = cx.t.draw(2);
    cx.class(["level:0", "level:1", "level:2"][level as usize]);
    let small = cx.t.chance(2, 3);
    let work = match level {
        2 => {
            let a = if small { draw_anim(cx.t, 3, 12) } else { draw_anim(cx.t, 4, 3000) };
            Work::Steps(a)
        }
        _ => {
            let o = if small { GifOpts { lzw: false, ..GifOpts::tiny() } } else { GifOpts { lzw: false, ..GifOpts::blocks() } };
            let m = gif(cx.t, &o);
            if level == 0 {
                Work::Blocks(m)
            } else {
                let (p, f) = group(&m);
                Work::Frames(p, f)
            }
        }
    };
    judge(cx, &work, level, 12)
}

/// Where the bytes of each call end, according to the whole output
pub fn true_ends(work: &Work, whole: &[u8]) -> Option<Vec<usize>> {
    let v = scan(whole).ok()?;
    let images = || v.iter().filter(|b| b.0 == 'I').map(|b| b.1);
    let last = v[v.len() - 1].1;
    Some(match work {
        Work::Blocks(_) => v.iter().map(|b| b.1).collect(),
        Work::Frames(p, _) => {
            let n = 2 + p.gct.is_some() as usize + p.looping.is_some() as usize + p.comments.len();
            let first = v.get(n - 1)?.1;
            [first].into_iter().chain(images()).chain([last]).collect()
        }
        Work::Steps(_) => images().collect(),
    })
}

/// Large files
fn enum_n(_: Tier) -> u64 {
    2 * BIG
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    let mut r = cx.t.bulk();
    let m = big(i / 2, &mut r);
    cx.class("large file");
    let work = if i % 2 == 0 {
        Work::Blocks(m)
    } else {
        let (p, f) = group(&m);
        Work::Frames(p, f)
    };
    judge(cx, &work, i % 2, 4)
}

fn judge(cx: &mut Cx, work: &Work, level: u64, n_points: usize) -> R {
    let plain = Sink::plain();
    let log = perform(work, &plain);
    let whole = plain.bytes();
    let mut ends = vec![];
    for (i, (r, n)) in log.iter().enumerate() {
        if let Err(e) = r {
            return Err(format!("call {i} without a failure: {}", err_name(e)));
        }
        ends.push(*n);
    }
    // no call may leave its bytes for later
    // (what is wrong with the contents is C02's matter)
    if let Some(due) = true_ends(work, &whole)
        && due.len() == ends.len()
        && let Some(i) = (0..ends.len()).find(|i| ends[*i] < due[*i])
    {
        return Err(format!("call {i} reports success when {} of its bytes are not written", due[i] - ends[i]));
    }
    cx.nontrivial(ends.len() >= 3);
    let mut plan = io_plan(cx.t);
    cx.class_if(!plan.sizes.is_empty(), "short writes");
    cx.class_if(plan.intr.iter().any(|i| *i), "interrupts");
    cx.key((&whole, &plan.sizes, &plan.intr));
    cx.sample(|| format!("level {level}, {} calls, {} bytes, pieces {:?}", ends.len(), whole.len(), &plan.sizes[..plan.sizes.len().min(6)]));
    // however it is accepted
    let sink = Sink::new(plan.clone(), false);
    for (i, (r, n)) in perform(work, &sink).into_iter().enumerate() {
        if let Err(e) = r {
            return Err(format!("call {i} with short writes or interruptions: {}", err_name(&e)));
        }
        if n != ends[i] {
            return Err(format!("call {i} returned with {n} bytes written instead of {}", ends[i]));
        }
    }
    if sink.bytes() != whole {
        return Err("output depends on how the writer accepts data".into());
    }
    // failures
    let points: Vec<usize> = if whole.len() <= 300 {
        cx.class("every byte fails");
        (0..whole.len()).collect()
    } else {
        let mut v: Vec<usize> = (0..n_points).map(|_| cx.t.usize(0, whole.len() - 1)).collect();
        for e in ends.iter().take(if n_points > 8 { 8 } else { 2 }) {
            v.push(e - 1);
            v.push((*e).min(whole.len() - 1));
        }
        v
    };
    let zero = cx.t.chance(1, 4);
    cx.class_if(zero, "writes nothing");
    for at in points {
        cx.exec();
        let kind = KINDS[(at + whole.len()) % KINDS.len()];
        let tok = 5000 + at as u64;
        plan.fail = Some((at, kind, tok));
        let sink = Sink::new(plan.clone(), zero);
        let mut failed = false;
        let ctx = |e: String| format!("writer failing at {at} of {} ({kind:?}, zero {zero}): {e}", whole.len());
        for (i, (r, _)) in perform(work, &sink).iter().enumerate() {
            let fits = ends[i] <= at;
            match r {
                Ok(()) if fits => {}
                Ok(()) => return Err(ctx(format!("call {i} reports success for bytes which were not written"))),
                Err(e) if fits => return Err(ctx(format!("call {i} fails although its bytes fit: {}", err_name(e)))),
                Err(e) if !failed => {
                    failed = true;
                    if zero {
                        match e {
                            Error::Io(e) if e.kind() == ErrorKind::WriteZero => {}
                            e => return Err(ctx(format!("call {i}: {} instead of a write-zero error", err_name(e)))),
                        }
                    } else {
                        carries(e, kind, tok).map_err(|e| ctx(format!("call {i}: {e}")))?;
                    }
                }
                Err(_) => {}
            }
        }
        let got = sink.bytes();
        if !whole.starts_with(&got) {
            return Err(ctx("bytes written are not a prefix of the whole output".into()));
        }
    }
    Ok(())
}
