//! C21: decoders and encoders do not influence each other.
use super::common::*;
use crate::engine::*;
use crate::generate::*;
use crate::io::{Feed, Plan, Sink};
use crate::refgif::*;
use crate::tape::Rng;
use crate::view::*;
use gift::{Encoder, Error};
use std::fmt::{self, Debug, Write};
use std::hash::Hasher;

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        level: "exploration",
        rule: "2..6 decoders and encoders of any level (well-formed, damaged and arbitrary files, split and failing \
               readers and writers, blocks, frames and steps to encode; some of them equal) are started, called and dropped in a \
               drawn order on one thread, or run on one thread each at the same time; every one must give the items, \
               errors and bytes which it gives alone; non-trivial: 2 or more of them gave 3 or more results each; \
               distinct by the jobs and their order",
        assumptions: &["threads which start together run at the same time often enough"],
        quick: 240_000,
        thorough: 1_440_000,
        run,
        enum_n: no_enum,
        enum_run: no_enum_run,
        must: &[
            "threads",
            "interleaved",
            "dropped early",
            "equal jobs",
            "decode:blocks",
            "decode:frames",
            "decode:steps",
            "decode:looping",
            "encode:blocks",
            "encode:frames",
            "encode:steps",
            "failing reader",
            "failing writer",
            "error",
        ],
    }
}

enum Spec {
    Dec { level: u64, bytes: Vec<u8>, plan: Plan, limit: usize },
    Blocks(Vec<RBlock>, Plan),
    Frames(RPreamble, Vec<RFrame>, Plan),
    Steps(AnimM, Plan),
}

/// Results of calls one by one, then None
type Job<'a> = Box<dyn FnMut() -> Option<String> + 'a>;

/// Results of one job are no more than this (a loop may be endless)
const MAX: usize = 60;

struct Digest(std::collections::hash_map::DefaultHasher);

impl Write for Digest {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.write(s.as_bytes());
        Ok(())
    }
}

fn digest(x: &impl Debug) -> u64 {
    let mut d = Digest(Default::default());
    let _ = write!(d, "{x:?}");
    d.0.finish()
}

fn items<'a, T, V: Debug>(mut it: impl Iterator<Item = Result<T, Error>> + 'a, view: impl Fn(&T) -> V + 'a) -> Job<'a> {
    let mut done = false;
    Box::new(move || {
        if done {
            return None;
        }
        match it.next() {
            Some(Ok(x)) => Some(format!("item {:016x}", digest(&view(&x)))),
            Some(Err(e)) => {
                done = true;
                Some(format!("error {} ({e})", err_name(&e)))
            }
            None => {
                done = true;
                Some("end".into())
            }
        }
    })
}

/// Calls of an encoder up to an error, then what was written
fn calls<'a, E: 'a>(e: E, sink: Sink, n: usize, call: impl Fn(&mut E, usize) -> Result<(), Error> + 'a) -> Job<'a> {
    let mut e = Some(e);
    let mut i = 0;
    Box::new(move || {
        if i < n {
            let r = call(e.as_mut()?, i);
            i = if r.is_ok() { i + 1 } else { n };
            return Some(format!("call {:?}, {} bytes", r.map_err(|e| err_name(&e)), sink.len()));
        }
        drop(e.take()?);
        Some(format!("wrote {} bytes {:016x}", sink.len(), digest(&sink.bytes())))
    })
}

fn job(s: &Spec) -> Job<'_> {
    match s {
        Spec::Dec { level, bytes, plan, limit } => {
            let d = dec(Feed::with_plan(bytes, plan.clone()), Some(Some(*limit)));
            match level {
                0 => items(d.into_blocks(), block_view),
                1 => items(d.into_frames(), frame_view),
                2 => items(d.into_steps(), step_view),
                _ => items(d.into_iter(), step_view),
            }
        }
        Spec::Blocks(m, plan) => {
            let sink = Sink::new(plan.clone(), false);
            let e = Encoder::new(sink.clone()).into_block_enc();
            calls(e, sink, m.len(), |e, i| e.encode(to_gift(&m[i])))
        }
        Spec::Frames(p, f, plan) => {
            let sink = Sink::new(plan.clone(), false);
            let e = Encoder::new(sink.clone()).into_frame_enc();
            calls(e, sink, f.len() + 2, |e, i| match i {
                0 => e.encode_preamble(&preamble_to_gift(p)),
                i if i <= f.len() => e.encode_frame(&frame_to_gift(&f[i - 1])),
                _ => e.encode_trailer(),
            })
        }
        Spec::Steps(a, plan) => {
            let sink = Sink::new(plan.clone(), false);
            let mut e = Encoder::new(sink.clone()).into_step_enc();
            if let Some(n) = a.loops {
                e = e.with_loop_count(n);
            }
            if let Some(g) = &a.global {
                e = e.with_global_color_table(&palette(g));
            }
            calls(e, sink, a.steps.len(), |e, i| e.encode_step(&a.steps[i].to_gift()))
        }
    }
}

fn draw(cx: &mut Cx) -> Spec {
    match cx.t.weighted(&[6, 1, 1, 2]) {
        0 => {
            let level = cx.t.draw(3);
            let mut plan = Plan::default();
            let bytes = match cx.t.weighted(&[4, 2, 2]) {
                0 => {
                    let o = if cx.t.flag() { GifOpts::tiny() } else { GifOpts { area: 600, ..GifOpts::steps() } };
                    write(&gif(cx.t, &o)).0
                }
                1 => wild(cx.t).0,
                _ => {
                    let mut b = write(&gif(cx.t, &GifOpts::tiny())).0;
                    if cx.t.flag() {
                        mutate(cx.t, &mut b);
                    } else {
                        let at = cx.t.usize(0, b.len());
                        plan.fail = Some((at, std::io::ErrorKind::Other, 7));
                        cx.class("failing reader");
                    }
                    b
                }
            };
            if cx.t.chance(1, 4) {
                let fail = plan.fail;
                plan = Plan { fail, ..io_plan(cx.t) };
            }
            cx.class(["decode:blocks", "decode:frames", "decode:steps", "decode:looping"][level as usize]);
            Spec::Dec { level, bytes, plan, limit: cx.t.pick(&[1 << 14, 1 << 14, 40]) }
        }
        k @ (1 | 2) => {
            let area = cx.t.pick(&[300, 300, 1500]);
            let m = gif(cx.t, &GifOpts { lzw: false, area, ..GifOpts::blocks() });
            let plan = writer(cx, write(&m).0.len());
            if k == 1 {
                cx.class("encode:blocks");
                Spec::Blocks(m, plan)
            } else {
                cx.class("encode:frames");
                let (p, f) = group(&m);
                Spec::Frames(p, f, plan)
            }
        }
        _ => {
            cx.class("encode:steps");
            let area = cx.t.pick(&[60, 60, 1500]);
            let a = draw_anim(cx.t, 4, area);
            let plan = writer(cx, a.steps.iter().map(|s| s.px.len()).sum());
            Spec::Steps(a, plan)
        }
    }
}

/// How a writer takes about n bytes
fn writer(cx: &mut Cx, n: usize) -> Plan {
    let mut plan = if cx.t.chance(1, 4) { io_plan(cx.t) } else { Plan::default() };
    if cx.t.chance(1, 3) {
        plan.fail = Some((cx.t.usize(0, n), std::io::ErrorKind::Other, 7));
        cx.class("failing writer");
    }
    plan
}

fn alone(s: &Spec) -> Vec<String> {
    let mut j = job(s);
    let mut v = vec![];
    while v.len() < MAX
        && let Some(x) = j()
    {
        v.push(x);
    }
    v
}

/// The same on a thread of its own
fn apart(s: &Spec) -> Vec<String> {
    std::thread::scope(|t| t.spawn(|| alone(s)).join()).unwrap_or_else(|e| std::panic::resume_unwind(e))
}

fn compare(what: &str, k: usize, got: &[String], want: &[String], whole: bool) -> R {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g != w {
            return Err(format!("{what}: job {k} gave {g:?} as result {i}, alone {w:?}"));
        }
    }
    if got.len() > want.len() || whole && got.len() < want.len() {
        return Err(format!("{what}: job {k} gave {} results, alone {}", got.len(), want.len()));
    }
    Ok(())
}

type Results = Vec<(Vec<String>, bool)>;

/// Results of each job, and whether it came to its end
fn together(specs: &[Spec], which: &[usize], threads: bool, order: &mut Rng) -> Result<Results, String> {
    if threads {
        let barrier = std::sync::Barrier::new(which.len());
        let r: Vec<_> = std::thread::scope(|s| {
            let h: Vec<_> = which
                .iter()
                .map(|k| {
                    let (spec, barrier) = (&specs[*k], &barrier);
                    s.spawn(move || {
                        barrier.wait();
                        alone(spec)
                    })
                })
                .collect();
            h.into_iter().map(|h| h.join()).collect()
        });
        let mut v = vec![];
        for (i, r) in r.into_iter().enumerate() {
            v.push((r.map_err(|_| format!("job {i} panicked on its thread"))?, true));
        }
        Ok(v)
    } else {
        let mut jobs: Vec<Option<Job>> = which.iter().map(|_| None).collect();
        let mut out: Vec<(Vec<String>, bool)> = which.iter().map(|_| (vec![], false)).collect();
        // where a job is dropped
        let stop: Vec<usize> = which.iter().map(|_| if order.below(4) == 0 { order.below(8) as usize } else { MAX }).collect();
        let mut left: Vec<usize> = (0..which.len()).collect();
        while !left.is_empty() {
            let i = order.below(left.len() as u64) as usize;
            let k = left[i];
            let j = jobs[k].get_or_insert_with(|| job(&specs[which[k]]));
            let over = if out[k].0.len() >= stop[k] {
                out[k].1 = stop[k] == MAX;
                true
            } else {
                match j() {
                    Some(x) => out[k].0.push(x),
                    None => out[k].1 = true,
                }
                out[k].1
            };
            if over {
                jobs[k] = None;
                left.swap_remove(i);
            }
        }
        Ok(out)
    }
}

fn run(cx: &mut Cx) -> R {
    let n = cx.t.usize(2, 4);
    let specs: Vec<Spec> = (0..n).map(|_| draw(cx)).collect();
    // which jobs there are; some twice
    let mut which: Vec<usize> = (0..n).collect();
    for _ in 0..cx.t.draw(2) {
        which.push(cx.t.usize(0, n - 1));
        cx.class("equal jobs");
    }
    let before = cx.t.flag();
    let threads = cx.t.chance(1, 12);
    // a job which panics by itself is another matter
    let own_thread = cx.t.chance(1, 4);
    let all = |own: bool| guard("alone", || specs.iter().map(if own { apart } else { alone }).collect::<Vec<_>>());
    let first = match before.then(|| all(false)).transpose() {
        Ok(f) => f,
        Err(_) => return Ok(()),
    };
    let mut order = cx.t.bulk();
    cx.class(if threads { "threads" } else { "interleaved" });
    let got = guard("with others", || together(&specs, &which, threads, &mut order));
    let Ok(want) = all(own_thread) else { return Ok(()) };
    let got = got??;
    let what = if threads { "threads" } else { "interleaved" };
    for (i, (g, whole)) in got.iter().enumerate() {
        compare(what, i, g, &want[which[i]], *whole)?;
    }
    for (i, f) in first.iter().flatten().enumerate() {
        compare("before and after the others", i, f, &want[i], true)?;
    }
    cx.class_if(got.iter().any(|g| !g.1), "dropped early");
    cx.class_if(want.iter().flatten().any(|s| s.starts_with("error")), "error");
    cx.nontrivial(got.iter().filter(|g| g.0.len() >= 3).count() >= 2);
    cx.key((&want, &which, threads, got.iter().map(|g| g.0.len()).collect::<Vec<_>>()));
    cx.sample(|| format!("{what}: jobs {which:?}, results {:?}", got.iter().map(|g| g.0.len()).collect::<Vec<_>>()));
    Ok(())
}
