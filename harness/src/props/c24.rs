//! C24: blocks are compared, copied and converted by content
use super::common::*;
use crate::engine::*;
use crate::generate::*;
use crate::io::Sink;
use crate::refgif::*;
use crate::tape::Tape;
use crate::view::*;
use gift::Encoder;
use gift::block::*;
use pix::{Raster, rgb::SRgba8};

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        level: "exploration",
        rule: "pairs of blocks of the same kind with equal contents (built anew, decoded from a file, or copied) or with \
               one value changed, pairs of different kinds, and pairs of preambles are compared with == in both \
               directions; copies are changed afterwards and the original looked at again; non-trivial: the pair \
               differs in one value only, or is equal without being a copy; distinct by the pair",
        assumptions: &["the accessors report what the block holds (C17)"],
        quick: 6_000_000,
        thorough: 24_000_000,
        run,
        enum_n,
        enum_run,
        must: &[
            "equal",
            "one value differs",
            "other kind",
            "decoded",
            "preamble",
            "frame",
            "step",
            "true color step",
            "differs:header",
            "differs:screen",
            "differs:gct",
            "differs:text",
            "differs:control",
            "differs:comment",
            "differs:app",
            "differs:unknown",
            "differs:desc",
            "differs:lct",
            "differs:image",
        ],
    }
}

const KINDS: u64 = 12;

fn kind(b: &RBlock) -> (u64, &'static str) {
    match b {
        RBlock::Header(_) => (0, "header"),
        RBlock::Screen { .. } => (1, "screen"),
        RBlock::Gct(_) => (2, "gct"),
        RBlock::PlainText(_) => (3, "text"),
        RBlock::Gce { .. } => (4, "control"),
        RBlock::Comment(_) => (5, "comment"),
        RBlock::App(_) => (6, "app"),
        RBlock::Unknown(..) => (7, "unknown"),
        RBlock::Desc { .. } => (8, "desc"),
        RBlock::Lct(_) => (9, "lct"),
        RBlock::Image(_) => (10, "image"),
        RBlock::Trailer => (11, "trailer"),
    }
}

/// Can a block of this kind contain sub-blocks?
fn has_subs(b: &RBlock) -> bool {
    matches!(kind(b).0, 3..=7 | 10)
}

fn gen_block(t: &mut Tape, k: u64) -> RBlock {
    match k {
        0 => RBlock::Header(if t.flag() { *b"89a" } else { [t.byte(), t.byte(), t.byte()] }),
        1 => RBlock::Screen { w: t.word(), h: t.word(), flags: t.byte(), bg: t.byte(), aspect: t.byte() },
        2 | 9 => {
            let n = t.pick(&[2, 4, 8, 16, 128, 256, 0, 3]);
            let c = table(t, n);
            if k == 2 { RBlock::Gct(c) } else { RBlock::Lct(c) }
        }
        3 => RBlock::PlainText(subs(t, true)),
        4 => RBlock::Gce { flags: t.byte(), delay: t.word(), tidx: t.byte() },
        5 => RBlock::Comment(subs(t, true)),
        6 => RBlock::App(match t.draw(2) {
            0 => {
                let n = t.word();
                loop_app(t, n)
            }
            1 => other_app(t, true),
            _ => subs(t, true),
        }),
        7 => RBlock::Unknown(t.byte(), subs(t, true)),
        8 => RBlock::Desc { l: t.word(), t: t.word(), w: t.word(), h: t.word(), flags: t.byte() },
        10 => {
            let (n, sy) = (t.pick(&[1, 0, 2, 3, 7, 60, 300]), nsym(t));
            RBlock::Image(RImage { pixels: pixels(t, n, sy), min: 0, chunks: vec![] })
        }
        _ => RBlock::Trailer,
    }
}

fn change_bytes(t: &mut Tape, v: &mut Vec<u8>, unit: usize) {
    let n = v.len();
    match t.draw(if n == 0 { 0 } else { 3 }) {
        // one more
        0 => {
            let b = t.byte();
            v.extend(vec![b; unit])
        }
        // one less
        1 => v.truncate(n - unit),
        // one bit
        _ => {
            let i = t.pick(&[0, n - 1, n / 2]);
            v[i] ^= 1 << t.draw(7);
        }
    }
}

fn change_subs(t: &mut Tape, s: &mut Vec<Vec<u8>>) {
    let n = s.len();
    let k = t.draw(if n == 0 { 0 } else { 4 });
    let i = if n == 0 { 0 } else { t.usize(0, n - 1) };
    match k {
        0 => s.push(vec![t.byte()]),
        1 => drop(s.remove(i)),
        // the same bytes, divided differently
        2 if s[i].len() > 1 => {
            let at = t.usize(1, s[i].len() - 1);
            let rest = s[i].split_off(at);
            s.insert(i + 1, rest);
        }
        // swapped
        3 if n > 1 => s.swap(0, n - 1),
        _ => {
            let j = t.usize(0, s[i].len() - 1);
            s[i][j] ^= 1 << t.draw(7);
        }
    }
}

fn bit16(t: &mut Tape, v: &mut u16) {
    *v ^= 1 << t.draw(15);
}

fn bit8(t: &mut Tape, v: &mut u8) {
    *v ^= 1 << t.draw(7);
}

/// Change one value of a block
fn change(t: &mut Tape, b: &mut RBlock) {
    match b {
        RBlock::Header(v) => {
            let i = t.draw(2) as usize;
            bit8(t, &mut v[i])
        }
        RBlock::Screen { w, h, flags, bg, aspect } => match t.draw(4) {
            0 => bit16(t, w),
            1 => bit16(t, h),
            2 => bit8(t, flags),
            3 => bit8(t, bg),
            _ => bit8(t, aspect),
        },
        RBlock::Gct(c) | RBlock::Lct(c) => change_bytes(t, c, 3),
        RBlock::PlainText(s) | RBlock::Comment(s) | RBlock::App(s) => change_subs(t, s),
        RBlock::Gce { flags, delay, tidx } => match t.draw(2) {
            0 => bit8(t, flags),
            1 => bit16(t, delay),
            _ => bit8(t, tidx),
        },
        RBlock::Unknown(id, s) => {
            if t.flag() {
                bit8(t, id)
            } else {
                change_subs(t, s)
            }
        }
        RBlock::Desc { l, t: top, w, h, flags } => match t.draw(4) {
            0 => bit16(t, l),
            1 => bit16(t, top),
            2 => bit16(t, w),
            3 => bit16(t, h),
            _ => bit8(t, flags),
        },
        RBlock::Image(i) => change_bytes(t, &mut i.pixels, 1),
        RBlock::Trailer => {}
    }
}

fn run(cx: &mut Cx) -> R {
    match cx.t.weighted(&[10, 2, 1, 1]) {
        0 => {
            let k = cx.t.draw(KINDS - 1);
            let a = gen_block(cx.t, k);
            let mut b = a.clone();
            match cx.t.weighted(&[3, 5, 2]) {
                0 => {}
                1 => change(cx.t, &mut b),
                _ => {
                    let k = cx.t.draw(KINDS - 1);
                    b = gen_block(cx.t, k);
                }
            }
            pair(cx, &a, &b)
        }
        1 => preamble(cx),
        2 => frame(cx),
        _ => step(cx),
    }
}

fn two(what: &str, eq: bool, ab: bool, ba: bool, ne: bool) -> R {
    if (ab, ba, ne) != (eq, eq, !eq) {
        return Err(format!("{what}: a == b is {ab}, b == a is {ba}, a != b is {ne}, but equal contents is {eq}"));
    }
    Ok(())
}

fn pair(cx: &mut Cx, a: &RBlock, b: &RBlock) -> R {
    cx.key(format!("{a:?} {b:?}"));
    let what = format!("{} and {}", short(a), short(b));
    cx.sample(|| what.clone());
    let eq = a == b;
    let same_kind = kind(a).0 == kind(b).0;
    cx.class(if eq {
        "equal"
    } else if same_kind {
        "one value differs"
    } else {
        "other kind"
    });
    if !eq && same_kind {
        cx.class(format!("differs:{}", kind(a).1));
    }
    cx.nontrivial(same_kind);
    let (ga, gb) = (to_gift(a), to_gift(b));
    for (g, m) in [(&ga, a), (&gb, b)] {
        if block_view(g) != *m {
            return Err(format!("{} became {}", short(m), short(&block_view(g))));
        }
        if g.has_sub_blocks() != has_subs(m) {
            return Err(format!("has_sub_blocks() of {} is {}", short(m), g.has_sub_blocks()));
        }
        let c = g.clone();
        two(&format!("copy of {}", short(m)), true, *g == c, c == *g, *g != c)?;
        if block_view(&c) != *m {
            return Err(format!("copy of {} is {}", short(m), short(&block_view(&c))));
        }
    }
    two(&what, eq, ga == gb, gb == ga, ga != gb)?;
    typed(&ga, &gb, eq, &what)?;
    changed_copy(ga, a)?;
    if same_kind && cx.t.chance(1, 4) {
        decoded(cx, a, b, &gb)?;
    }
    Ok(())
}

/// The blocks themselves, not wrapped in `Block`
fn typed(a: &Block, b: &Block, eq: bool, what: &str) -> R {
    macro_rules! cmp {
        ($($v:ident),*) => {
            match (a, b) {
                $((Block::$v(a), Block::$v(b)) => two(what, eq, a == b, b == a, a != b),)*
                _ => Ok(()),
            }
        };
    }
    cmp!(
        Header,
        LogicalScreenDesc,
        GlobalColorTable,
        PlainText,
        GraphicControl,
        Comment,
        Application,
        Unknown,
        ImageDesc,
        LocalColorTable,
        ImageData,
        Trailer
    )
}

/// Changing a copy leaves the original alone
fn changed_copy(g: Block, m: &RBlock) -> R {
    let mut c = g.clone();
    match &mut c {
        Block::PlainText(b) => b.add_sub_block(b"x"),
        Block::GraphicControl(b) => b.set_delay_time_cs(b.delay_time_cs() ^ 1),
        Block::Comment(b) => b.add_comment(b"x"),
        Block::Application(b) => b.add_app_data(b"x"),
        Block::Unknown(b) => b.add_sub_block(b"x"),
        Block::ImageData(b) => b.data_mut().push(1),
        _ => return Ok(()),
    }
    if block_view(&g) != *m {
        return Err(format!("changing a copy of {} made the original {}", short(m), short(&block_view(&g))));
    }
    if c == g {
        return Err(format!("a changed copy of {} still equals it", short(m)));
    }
    Ok(())
}

/// A block read from a file equals the same block built by hand
fn decoded(cx: &mut Cx, a: &RBlock, b: &RBlock, gb: &Block) -> R {
    let sub_bad = |s: &[Vec<u8>]| s.is_empty();
    let usable = match a {
        RBlock::Header(v) => v == b"89a" || v == b"87a",
        RBlock::Gct(c) | RBlock::Lct(c) => c.len() / 3 >= 2 && (c.len() / 3).is_power_of_two() && c.len() / 3 <= 256,
        RBlock::App(s) => !sub_bad(s),
        RBlock::Unknown(id, _) => ![0x01, 0xF9, 0xFE, 0xFF].contains(id),
        RBlock::Desc { w, h, .. } => *w as u32 * *h as u32 <= 1000,
        _ => true,
    };
    if !usable {
        return Ok(());
    }
    // a file around the block
    let mut m = vec![RBlock::Header(*b"89a"), RBlock::Screen { w: 2, h: 2, flags: 0, bg: 0, aspect: 0 }];
    let bits = |c: &[u8]| 0x80 | ((c.len() / 3).trailing_zeros() as u8 - 1);
    let at;
    match a {
        RBlock::Header(_) => {
            at = 0;
            m[0] = a.clone();
        }
        RBlock::Screen { flags, .. } => {
            at = 1;
            m[1] = a.clone();
            if flags & 0x80 != 0 {
                m.push(RBlock::Gct(vec![7; 3 * table_len(*flags)]));
            }
        }
        RBlock::Gct(c) => {
            at = 2;
            m[1] = RBlock::Screen { w: 2, h: 2, flags: bits(c), bg: 0, aspect: 0 };
            m.push(a.clone());
        }
        RBlock::Desc { w, h, flags, .. } => {
            at = 2;
            m.push(a.clone());
            if flags & 0x80 != 0 {
                m.push(RBlock::Lct(vec![7; 3 * table_len(*flags)]));
            }
            m.push(RBlock::Image(simple_image(&vec![1; *w as usize * *h as usize])));
        }
        RBlock::Lct(c) => {
            at = 3;
            m.push(RBlock::Desc { l: 0, t: 0, w: 1, h: 1, flags: bits(c) });
            m.push(a.clone());
            m.push(RBlock::Image(simple_image(&[1])));
        }
        RBlock::Image(i) => {
            at = 3;
            m.push(RBlock::Desc { l: 0, t: 0, w: i.pixels.len() as u16, h: 1, flags: 0 });
            m.push(RBlock::Image(simple_image(&i.pixels)));
        }
        RBlock::Gce { .. } => {
            at = 2;
            m.push(a.clone());
            m.push(RBlock::Desc { l: 0, t: 0, w: 1, h: 1, flags: 0 });
            m.push(RBlock::Image(simple_image(&[1])));
        }
        RBlock::Trailer => at = 2,
        _ => {
            at = 2;
            m.push(a.clone());
        }
    }
    m.push(RBlock::Trailer);
    let (bytes, _) = write(&m);
    let s = collect(dec(feed(&bytes), None).into_blocks(), bound(bytes.len()), |b| b);
    if let Some(e) = s.err_name() {
        return Err(format!("decoding {}: {e}", short(a)));
    }
    let Some(got) = s.items.get(at) else { return Err(format!("{} is not in the decoded file", short(a))) };
    cx.class("decoded");
    let what = format!("decoded {} and {}", short(a), short(b));
    let eq = a == b;
    two(&what, eq, got == gb, gb == got, got != gb)
}

fn preamble(cx: &mut Cx) -> R {
    cx.class("preamble");
    let mut o = GifOpts::tiny();
    o.ext = 40;
    let m = gif(cx.t, &o);
    let (mut a, _) = group(&m);
    let mut b = a.clone();
    let fresh = |t: &mut Tape, p: &mut RPreamble| match t.draw(9) {
        0 => bit8(t, &mut p.version[2]),
        1 => bit16(t, &mut p.screen.0),
        2 => bit16(t, &mut p.screen.1),
        3 => bit8(t, &mut p.screen.2),
        4 => bit8(t, &mut p.screen.3),
        5 => bit8(t, &mut p.screen.4),
        6 => match &mut p.gct {
            Some(c) if t.chance(3, 4) => change_bytes(t, c, 3),
            Some(_) => p.gct = None,
            None => p.gct = Some(vec![]),
        },
        7 => match &mut p.looping {
            Some(l) if t.chance(3, 4) => {
                let n = t.word();
                *l = (loop_app(t, n), n);
            }
            Some(_) => p.looping = None,
            None => {
                let n = t.word();
                p.looping = Some((loop_app(t, n), n));
            }
        },
        8 => p.comments.push(vec![vec![t.byte()]]),
        _ => match t.draw(2) {
            0 => p.comments.reverse(),
            1 => drop(p.comments.pop()),
            _ => {
                if let Some(c) = p.comments.last_mut() {
                    change_subs(t, c)
                }
            }
        },
    };
    // not always the same comments
    for _ in 0..cx.t.draw(2) {
        fresh(cx.t, &mut a);
        b = a.clone();
    }
    if cx.t.chance(2, 3) {
        fresh(cx.t, &mut b);
    }
    let eq = a == b;
    cx.key(format!("{a:?} {b:?}"));
    cx.nontrivial(true);
    let what = format!("preambles {a:?} and {b:?}");
    cx.sample(|| what.clone());
    cx.class(if eq { "preamble:equal" } else { "preamble:different" });
    let (ga, gb) = (preamble_to_gift(&a), preamble_to_gift(&b));
    two(&what, eq, ga == gb, gb == ga, ga != gb)?;
    let mut c = ga.clone();
    two("copy of a preamble", true, c == ga, ga == c, c != ga)?;
    c.comments.push(comment(&[b"x".to_vec()]));
    c.loop_count_ext = Some(app(&[b"NETSCAPE2.0".to_vec(), vec![1, 9, 9]]));
    if preamble_view(&ga) != a {
        return Err("changing a copy changed the original preamble".into());
    }
    if c == ga {
        return Err("a changed copy of a preamble still equals it".into());
    }
    Ok(())
}

/// A frame is made of the blocks it was given
fn frame(cx: &mut Cx) -> R {
    cx.class("frame");
    let gce = cx.t.flag().then(|| gen_block(cx.t, 4));
    let d = gen_block(cx.t, 8);
    let lct = cx.t.flag().then(|| gen_block(cx.t, 9));
    let img = gen_block(cx.t, 10);
    cx.key(format!("{gce:?} {d:?} {lct:?} {img:?}"));
    cx.nontrivial(true);
    let f = Frame::new(
        gce.as_ref().map(|b| match to_gift(b) {
            Block::GraphicControl(b) => b,
            _ => unreachable!(),
        }),
        match to_gift(&d) {
            Block::ImageDesc(b) => b,
            _ => unreachable!(),
        },
        lct.as_ref().map(|b| match to_gift(b) {
            Block::LocalColorTable(b) => b,
            _ => unreachable!(),
        }),
        match to_gift(&img) {
            Block::ImageData(b) => b,
            _ => unreachable!(),
        },
    );
    let is = |what: &str, ok: bool| if ok { Ok(()) } else { Err(format!("frame of {gce:?} {} {lct:?}: {what}", short(&d))) };
    is("graphic control", f.graphic_control_ext.map(|b| block_view(&b.into())) == gce)?;
    is("image descriptor", block_view(&f.image_desc.into()) == d)?;
    is("local table", f.local_color_table.clone().map(|b| block_view(&b.into())) == lct)?;
    is("image data", block_view(&f.image_data.clone().into()) == img)?;
    let RBlock::Desc { l, t, w, h, .. } = d else { unreachable!() };
    is("position", (f.left(), f.top(), f.width(), f.height()) == (l, t, w, h))?;
    let r = f.region();
    is(
        "region",
        (r.left(), r.top(), r.width(), r.height()) == (l as i32, t as i32, w as u32, h as u32)
            && (r.right(), r.bottom()) == (l as i32 + w as i32, t as i32 + h as i32),
    )?;
    let (disp, trans) = match gce {
        Some(RBlock::Gce { flags, tidx, .. }) => ((flags >> 2) & 7, (flags & 1 != 0).then_some(tidx)),
        _ => (0, None),
    };
    is("disposal method", u8::from(f.disposal_method()) == disp && f.disposal_method() == disposal(disp))?;
    is("transparent colour", f.transparent_color() == trans)
}

/// A copy of a step writes the same file, and changing it leaves the
/// original alone
fn step(cx: &mut Cx) -> R {
    cx.class("step");
    let (w, h) = (cx.t.usize(1, 4) as u32, cx.t.usize(1, 4) as u32);
    if cx.t.chance(1, 4) {
        return true_color(cx, w, h);
    }
    let n = cx.t.pick(&[2, 4, 3, 16, 256]);
    let m = StepM {
        w,
        h,
        px: pixels(cx.t, (w * h) as usize, n),
        pal: draw_colors(cx.t, n),
        delay: Some(Some(cx.t.word())),
        disp: Some(cx.t.draw(7) as u8),
        trans: Some(cx.t.flag().then(|| cx.t.byte())),
        order: cx.t.draw(5),
    };
    cx.key(format!("{m:?}"));
    cx.nontrivial(true);
    let enc = |s: &gift::Step| -> Result<Vec<u8>, String> {
        let sink = Sink::plain();
        let mut e = Encoder::new(sink.clone()).into_step_enc();
        e.encode_step(s).map_err(|e| format!("encode_step: {}", err_name(&e)))?;
        drop(e);
        Ok(sink.bytes())
    };
    let a = m.to_gift();
    let first = enc(&a)?;
    let c = a.clone();
    if enc(&c)? != first {
        return Err(format!("a copy of a step is written differently: {m:?}"));
    }
    let c = c
        .with_delay_time_cs(Some(m.delay() ^ 1))
        .with_disposal_method(disposal(m.disposal() ^ 1))
        .with_transparent_color(if m.trans().is_some() { None } else { Some(1) });
    let changed = enc(&c)?;
    if enc(&a)? != first {
        return Err(format!("changing a copy of a step changed the original: {m:?}"));
    }
    if changed == first {
        return Err(format!("a copy of a step cannot be changed: {m:?}"));
    }
    // decoded steps
    let one = |b: &[u8]| collect(dec(feed(b), None).into_steps(), 4, |s| s);
    let s = one(&first);
    let Some(s) = s.items.first() else { return Ok(()) };
    let v = step_view(s);
    let c = s.clone();
    if step_view(&c) != v {
        return Err(format!("a copy of a decoded step differs: {m:?}"));
    }
    drop(c.with_delay_time_cs(Some(v.delay ^ 1)).with_transparent_color(None));
    if step_view(s) != v {
        return Err(format!("changing a copy of a decoded step changed the original: {m:?}"));
    }
    Ok(())
}

/// A true color step has what it was given, and so has its copy
fn true_color(cx: &mut Cx, w: u32, h: u32) -> R {
    cx.class("true color step");
    let px = payload(cx.t, 4 * (w * h) as usize);
    let (delay, disp, trans) = (cx.t.word(), cx.t.draw(7) as u8, cx.t.flag().then(|| cx.t.byte()));
    let rgba: Vec<SRgba8> = px.as_chunks::<4>().0.iter().map(|p| SRgba8::new(p[0], p[1], p[2], p[3])).collect();
    let s = gift::Step::with_true_color(Raster::with_pixels(w, h, rgba))
        .with_delay_time_cs(Some(delay))
        .with_disposal_method(disposal(disp))
        .with_transparent_color(trans);
    cx.key(format!("{w}x{h} {px:?} {delay} {disp} {trans:?}"));
    cx.nontrivial(true);
    let want = RStep { w: w as u16, h: h as u16, rgba: px, delay, trans };
    for (what, s) in [("a copy of it", s.clone()), ("it", s)] {
        if let Some(d) = step_diff(&step_view(&s), &want) {
            return Err(format!("true color step {want:?}: {what}: {d}"));
        }
    }
    Ok(())
}

/// Enumerated: one changed bit in each fixed-size block, all pairs of kinds
fn enum_n(_: Tier) -> u64 {
    24 + 56 + 32 + 72 + KINDS * KINDS
}

fn flip(b: &mut [u8], i: u64) {
    b[i as usize / 8] ^= 1 << (i % 8);
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    let word = |b: &[u8], i: usize| b[i] as u16 | (b[i + 1] as u16) << 8;
    let header = |b: &[u8]| RBlock::Header([b[0], b[1], b[2]]);
    let screen = |b: &[u8]| RBlock::Screen { w: word(b, 0), h: word(b, 2), flags: b[4], bg: b[5], aspect: b[6] };
    let control = |b: &[u8]| RBlock::Gce { flags: b[0], delay: word(b, 1), tidx: b[3] };
    let desc = |b: &[u8]| RBlock::Desc { l: word(b, 0), t: word(b, 2), w: word(b, 4), h: word(b, 6), flags: b[8] };
    let mut r = cx.t.bulk();
    let mut a = [0u8; 9];
    for base in 0..6 {
        match base {
            0 => a.fill(0),
            1 => a.fill(0xFF),
            _ => a.iter_mut().for_each(|b| *b = r.next() as u8),
        }
        let mut b = a;
        let (x, y) = match i {
            0..24 => {
                flip(&mut b, i);
                (header(&a), header(&b))
            }
            24..80 => {
                flip(&mut b, i - 24);
                (screen(&a), screen(&b))
            }
            80..112 => {
                flip(&mut b, i - 80);
                (control(&a), control(&b))
            }
            112..184 => {
                flip(&mut b, i - 112);
                (desc(&a), desc(&b))
            }
            _ => {
                let k = i - 184;
                (gen_block(cx.t, k / KINDS), gen_block(cx.t, k % KINDS))
            }
        };
        pair(cx, &x, &y)?;
    }
    Ok(())
}
