//! C10: decoding does not depend on how the reader delivers bytes
use crate::engine::*;
use crate::generate::*;
use crate::io::*;
use crate::refgif::*;
use crate::view::*;
use std::io::ErrorKind;

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        level: "exploration",
        rule: "files (well-formed or arbitrary) are decoded at all four levels from readers which split and interrupt \
               in drawn patterns, down to one byte per read, and compared with a single read; well-formed files are \
               followed by other bytes which must not be read; readers fail at every byte (small files) or drawn \
               bytes with several error kinds; non-trivial: 2 or more images or 10 or more blocks; distinct by file \
               and plan",
        assumptions: &["a reader's failure lasts (once it has failed, it keeps failing)"],
        quick: 160_000,
        thorough: 960_000,
        run,
        enum_n,
        enum_run,
        must: &["one byte reads", "interrupts", "kind:fail", "kind:split", "kind:wild", "every byte fails"],
    }
}

const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::ConnectionReset,
    ErrorKind::OutOfMemory,
];

fn same<T: PartialEq>(what: &str, a: &Seq<T>, b: &Seq<T>) -> R {
    if a.items.len() != b.items.len() {
        return Err(format!("{what}: {} items instead of {}", b.items.len(), a.items.len()));
    }
    if let Some(i) = (0..a.items.len()).find(|i| a.items[*i] != b.items[*i]) {
        return Err(format!("{what}: item {i} differs"));
    }
    if a.err_name() != b.err_name() {
        return Err(format!("{what}: {:?} instead of {:?}", b.err_name(), a.err_name()));
    }
    Ok(())
}

fn run(cx: &mut Cx) -> R {
    match cx.t.weighted(&[3, 3, 3]) {
        0 => split_case(cx),
        1 => fail_case(cx),
        _ => {
            cx.class("kind:wild");
            let (b, _) = wild(cx.t);
            let plan = plan(cx);
            cx.key((&b, &plan.sizes, &plan.intr));
            all_same(cx, &b, &plan, None)
        }
    }
}

fn plan(cx: &mut Cx) -> Plan {
    let p = io_plan(cx.t);
    cx.class_if(p.sizes == [1], "one byte reads");
    cx.class_if(p.intr.iter().any(|i| *i), "interrupts");
    p
}

fn all_same(cx: &mut Cx, b: &[u8], plan: &Plan, end: Option<usize>) -> R {
    let limit = Some(Some(1 << 22));
    let max = b.len() + 4;
    let plain = blocks(feed(b), max, limit);
    cx.nontrivial(
        plain.items.len() >= 10 || plain.items.iter().filter(|b| matches!(b, RBlock::Image(_))).count() >= 2,
    );
    let f = || Feed::with_plan(b, plan.clone());
    let check = |what: &str, f: &Feed| -> R {
        match end {
            Some(e) if f.pos > e => Err(format!("{what}: {} bytes read beyond the trailer", f.pos - e)),
            _ => Ok(()),
        }
    };
    for fr in [f(), feed(b)] {
        let mut fr = fr;
        let s = blocks(&mut fr, max, limit);
        same("blocks", &plain, &s)?;
        check("blocks", &fr)?;
    }
    let p = frames(feed(b), max, limit);
    let mut r = f();
    same("frames", &p, &frames(&mut r, max, limit))?;
    check("frames", &r)?;
    let p = frames_after(feed(b), max, limit);
    let mut r = f();
    same("frames after preamble", &p, &frames_after(&mut r, max, limit))?;
    check("frames after preamble", &r)?;
    let p = steps(feed(b), max, limit);
    let mut r = f();
    same("steps", &p, &steps(&mut r, max, limit))?;
    check("steps", &r)?;
    let n = p.items.len() + 2;
    let p = looping(feed(b), n, limit);
    let mut r = f();
    same("looping", &p, &looping(&mut r, n, limit))?;
    check("looping", &r)?;
    cx.exec();
    Ok(())
}

fn split_case(cx: &mut Cx) -> R {
    cx.class("kind:split");
    let o = if cx.t.flag() { GifOpts::tiny() } else { GifOpts { area: 3000, ..GifOpts::steps() } };
    let m = gif(cx.t, &o);
    classify(cx, &m);
    split_model(cx, &m)
}

/// Large files
fn enum_n(_: Tier) -> u64 {
    2 * BIG
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    let mut r = cx.t.bulk();
    let m = big(i / 2, &mut r);
    cx.class("large file");
    if i % 2 == 0 { split_model(cx, &m) } else { fail_model(cx, &m, 5) }
}

fn split_model(cx: &mut Cx, m: &[RBlock]) -> R {
    let (mut b, _) = write(m);
    let end = b.len();
    if cx.t.flag() {
        let k = cx.t.usize(1, 300);
        b.extend(payload(cx.t, k));
    }
    cx.sample(|| summary(m));
    let plan = plan(cx);
    cx.key((&b, &plan.sizes, &plan.intr));
    cx.info.input = Some(b.clone());
    all_same(cx, &b, &plan, Some(end))
}

fn fail_case(cx: &mut Cx) -> R {
    cx.class("kind:fail");
    let o = if cx.t.chance(2, 3) { GifOpts::tiny() } else { GifOpts { area: 2000, ..GifOpts::steps() } };
    let m = gif(cx.t, &o);
    fail_model(cx, &m, 10)
}

fn fail_model(cx: &mut Cx, m: &[RBlock], n_points: usize) -> R {
    let (bytes, ends) = write(m);
    cx.sample(|| summary(m));
    let max = bytes.len() + 4;
    let images = m.iter().filter(|b| matches!(b, RBlock::Image(_))).count();
    let wb = blocks(feed(&bytes), max, None);
    let wf = frames(feed(&bytes), max, None);
    let ws = steps(feed(&bytes), max, None);
    if wb.err.is_some() || wf.err.is_some() || ws.err.is_some() || wb.items.len() != m.len() || wf.items.len() != images || ws.items.len() != images {
        cx.class("whole file not decoded");
        return Ok(());
    }
    let mut plan = plan(cx);
    cx.key((&bytes, &plan.sizes, &plan.intr));
    cx.nontrivial(images >= 2 || m.len() >= 10);
    let points: Vec<usize> = if bytes.len() <= 250 {
        cx.class("every byte fails");
        (0..bytes.len()).collect()
    } else {
        (0..n_points).map(|_| if cx.t.flag() { cx.t.usize(0, bytes.len() - 1) } else { cx.t.pick(&ends).min(bytes.len() - 1) }).collect()
    };
    for at in points {
        cx.exec();
        let kind = KINDS[(at + bytes.len()) % KINDS.len()];
        let tok = 1000 + at as u64;
        plan.fail = Some((at, kind, tok));
        let f = || Feed::with_plan(&bytes, plan.clone());
        let n = ends.iter().filter(|e| **e <= at).count();
        let nf = m[..n].iter().filter(|b| matches!(b, RBlock::Image(_))).count();
        let msg = |e| format!("reader failing with {kind:?} at {at} of {}: {e}", bytes.len());
        judge("blocks", blocks(f(), max, None), |g| cmp_blocks(g, &wb.items[..n]), kind, tok).map_err(msg)?;
        judge("frames", frames(f(), max, None), |g| cmp_frames(g, &wf.items[..nf]), kind, tok).map_err(msg)?;
        judge("frames after preamble", frames_after(f(), max, None), |g| cmp_frames(g, &wf.items[..nf]), kind, tok).map_err(msg)?;
        judge("steps", steps(f(), max, None), |g| cmp_steps(g, &ws.items[..nf]), kind, tok).map_err(msg)?;
        judge("looping", looping(f(), max, None), |g| cmp_steps(g, &ws.items[..nf]), kind, tok).map_err(msg)?;
    }
    Ok(())
}

fn judge<T>(what: &str, s: Seq<T>, cmp: impl Fn(&[T]) -> R, kind: ErrorKind, tok: u64) -> R {
    cmp(&s.items).map_err(|e| format!("{what}: {e}"))?;
    match &s.err {
        None => return Err(format!("{what}: the failure is not reported")),
        Some(e) => carries(e, kind, tok).map_err(|e| format!("{what}: {e}"))?,
    }
    if !s.stopped {
        return Err(format!("{what}: something follows the I/O error"));
    }
    Ok(())
}
