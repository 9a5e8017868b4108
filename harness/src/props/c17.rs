//! C17: block fields are faithful and independent of each other
use super::common::*;
use crate::engine::*;
use crate::generate::*;
use crate::io::Sink;
use crate::refgif::*;
use crate::tape::Tape;
use gift::block::*;
use gift::{Encoder, Step};
use pix::Raster;
use pix::gray::Gray8;
use std::fmt::Debug;

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        level: "exploration",
        rule: "sequences of up to 12 setter calls on every block type and on steps, compared after each call with a \
               model holding one variable per field; payloads of legal and illegal lengths; all 65,536 table length \
               requests, all flags bytes with every table configuration, all loop counts; non-trivial: 3 or more \
               setter calls; distinct by calls",
        assumptions: &["setting a screen's colour table also sets its colour resolution to the table's size (as the existing tests expect)"],
        quick: 15_000_000,
        thorough: 60_000_000,
        run,
        enum_n,
        enum_run,
        must: &["screen", "control", "desc", "payload", "illegal payload", "application", "loop count", "no loop count", "table", "step", "others"],
    }
}

fn same<T: PartialEq + Debug>(what: &str, got: T, want: T) -> R {
    if got != want {
        return Err(format!("{what} is {got:?} instead of {want:?}"));
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Conf {
    present: bool,
    sorted: bool,
    /// log2 of the length, less one
    bits: u8,
}

impl Conf {
    fn draw(t: &mut Tape) -> (Self, ColorTableConfig) {
        let (present, sorted) = (t.chance(2, 3), t.flag());
        let len = match t.weighted(&[3, 3, 1]) {
            0 => t.draw(260) as u16,
            1 => t.pick(&[0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257]),
            _ => t.word(),
        };
        let c = make(present, sorted, len);
        (Conf { present, sorted, bits: bits_for(len) }, c)
    }
    fn of_flags(flags: u8, sort: u8) -> Self {
        Conf { present: flags & 0x80 != 0, sorted: flags & sort != 0, bits: flags & 7 }
    }
    fn check(&self, c: ColorTableConfig) -> R {
        let n = if self.present { 2usize << self.bits } else { 0 };
        same("existence", c.existence() == ColorTableExistence::Present, self.present)?;
        same("ordering", c.ordering() == ColorTableOrdering::Sorted, self.sorted)?;
        same("len", c.len(), n)?;
        same("size_bytes", c.size_bytes(), 3 * n)?;
        same("is_empty", c.is_empty(), n == 0)
    }
}

fn bits_for(len: u16) -> u8 {
    (0..7).find(|b| (2u32 << b) >= len as u32).unwrap_or(7)
}

fn make(present: bool, sorted: bool, len: u16) -> ColorTableConfig {
    ColorTableConfig::new(
        if present { ColorTableExistence::Present } else { ColorTableExistence::Absent },
        if sorted { ColorTableOrdering::Sorted } else { ColorTableOrdering::NotSorted },
        len,
    )
}

fn run(cx: &mut Cx) -> R {
    let k = cx.t.weighted(&[3, 3, 3, 2, 2, 1, 2, 1]);
    let n = if cx.t.chance(1, 6) { 1 } else { cx.t.usize(2, 12) };
    cx.nontrivial(n >= 3);
    let mut ops: Vec<String> = vec![];
    let r = match k {
        0 => screen(cx, n, &mut ops),
        1 => control(cx, n, &mut ops),
        2 => desc(cx, n, &mut ops),
        3 => payloads(cx, n, &mut ops),
        4 => application(cx, &mut ops),
        5 => tables(cx, &mut ops),
        6 => step(cx, n, &mut ops),
        _ => others(cx, &mut ops),
    };
    cx.key((k, &ops));
    let s = format!("{k}: {}", ops.join(", "));
    cx.sample(|| s.clone());
    r.map_err(|e| format!("after {s}: {e}"))
}

// ------------------------------------------------------- screen descriptor

#[derive(Clone, Copy, Default)]
struct ScreenM {
    w: u16,
    h: u16,
    /// present, resolution, sorted, size
    flags: u8,
    /// bits of flags which count
    mask: u8,
    bg: u8,
    aspect: u8,
}

fn check_screen(b: LogicalScreenDesc, m: &ScreenM) -> R {
    same("screen_width", b.screen_width(), m.w)?;
    same("screen_height", b.screen_height(), m.h)?;
    same("flags", b.flags() & m.mask, m.flags & m.mask)?;
    same("background_color_idx", b.background_color_idx(), m.bg)?;
    same("pixel_aspect_ratio", b.pixel_aspect_ratio(), m.aspect)?;
    if m.mask & 0x70 != 0 {
        same("color_resolution", b.color_resolution(), 2 << ((m.flags >> 4) & 7))?;
    }
    Conf::of_flags(m.flags, 0x08).check(b.color_table_config())
}

fn screen(cx: &mut Cx, n: usize, ops: &mut Vec<String>) -> R {
    cx.class("screen");
    let mut b = LogicalScreenDesc::default();
    let mut m = ScreenM { mask: 0xFF, ..Default::default() };
    check_screen(b, &m)?;
    for _ in 0..n {
        match cx.t.draw(5) {
            0 => {
                m.w = cx.t.word();
                b = b.with_screen_width(m.w);
                ops.push(format!("width {}", m.w));
            }
            1 => {
                m.h = cx.t.word();
                b = b.with_screen_height(m.h);
                ops.push(format!("height {}", m.h));
            }
            2 => {
                m.flags = cx.t.byte();
                m.mask = 0xFF;
                b = b.with_flags(m.flags);
                ops.push(format!("flags {:#04x}", m.flags));
            }
            3 => {
                m.bg = cx.t.byte();
                b = b.with_background_color_idx(m.bg);
                ops.push(format!("background {}", m.bg));
            }
            4 => {
                m.aspect = cx.t.byte();
                b = b.with_pixel_aspect_ratio(m.aspect);
                ops.push(format!("aspect {}", m.aspect));
            }
            _ => {
                let (c, cfg) = Conf::draw(cx.t);
                b = b.with_color_table_config(cfg);
                ops.push(format!("table {c:?}"));
                screen_conf(&mut m, c);
            }
        }
        check_screen(b, &m)?;
        let other = LogicalScreenDesc::default().with_screen_width(m.w).with_screen_height(m.h);
        same("equal_size", b.equal_size(other), true)?;
        same("equal_size (width)", b.equal_size(other.with_screen_width(m.w ^ 1 << cx.t.draw(15))), false)?;
        same("equal_size (height)", b.equal_size(other.with_screen_height(m.h ^ 1 << cx.t.draw(15))), false)?;
    }
    Ok(())
}

fn screen_conf(m: &mut ScreenM, c: Conf) {
    m.flags = (c.present as u8) << 7 | c.bits << 4 | (c.sorted as u8) << 3 | c.bits;
    // the size of a table which is absent means nothing
    m.mask = if c.present { 0xFF } else { 0x88 };
}

// --------------------------------------------------------- graphic control

fn check_control(b: GraphicControl, flags: u8, delay: u16, idx: u8) -> R {
    same("flags", b.flags(), flags)?;
    same("delay_time_cs", b.delay_time_cs(), delay)?;
    same("transparent_color_idx", b.transparent_color_idx(), idx)?;
    same("disposal_method", b.disposal_method(), disposal(flags >> 2))?;
    same("user_input", b.user_input(), flags & 2 != 0)?;
    same("transparent_color", b.transparent_color(), if flags & 1 != 0 { Some(idx) } else { None })
}

fn control(cx: &mut Cx, n: usize, ops: &mut Vec<String>) -> R {
    cx.class("control");
    let mut b = GraphicControl::default();
    let (mut flags, mut delay, mut idx) = (0u8, 0u16, 0u8);
    check_control(b, flags, delay, idx)?;
    for _ in 0..n {
        match cx.t.draw(5) {
            0 => {
                flags = cx.t.byte();
                b.set_flags(flags);
                ops.push(format!("flags {flags:#04x}"));
            }
            1 => {
                let d = cx.t.draw(7) as u8;
                flags = flags & 0xE3 | d << 2;
                b.set_disposal_method(disposal(d));
                ops.push(format!("disposal {d}"));
            }
            2 => {
                let u = cx.t.flag();
                flags = flags & 0xFD | (u as u8) << 1;
                b.set_user_input(u);
                ops.push(format!("user input {u}"));
            }
            3 => {
                delay = cx.t.word();
                b.set_delay_time_cs(delay);
                ops.push(format!("delay {delay}"));
            }
            4 => {
                idx = cx.t.byte();
                b.set_transparent_color_idx(idx);
                ops.push(format!("index {idx}"));
            }
            _ => {
                let t = if cx.t.chance(2, 3) { Some(cx.t.byte()) } else { None };
                b.set_transparent_color(t);
                ops.push(format!("transparent {t:?}"));
                flags = flags & 0xFE | t.is_some() as u8;
                // without transparency the index has no meaning
                idx = t.unwrap_or(b.transparent_color_idx());
            }
        }
        check_control(b, flags, delay, idx)?;
        let f = Frame::new(Some(b), ImageDesc::default(), None, ImageData::new(0));
        same("frame's disposal", f.disposal_method(), disposal(flags >> 2))?;
        same("frame's transparent colour", f.transparent_color(), b.transparent_color())?;
    }
    Ok(())
}

// -------------------------------------------------------- image descriptor

#[derive(Clone, Copy, Default)]
struct DescM {
    l: u16,
    t: u16,
    w: u16,
    h: u16,
    flags: u8,
    mask: u8,
}

fn check_desc(b: &ImageDesc, m: &DescM) -> R {
    same("left", b.left(), m.l)?;
    same("top", b.top(), m.t)?;
    same("width", b.width(), m.w)?;
    same("height", b.height(), m.h)?;
    same("flags", b.flags() & m.mask, m.flags & m.mask)?;
    same("interlaced", b.interlaced(), m.flags & 0x40 != 0)?;
    same("image_sz", b.image_sz(), m.w as usize * m.h as usize)?;
    Conf::of_flags(m.flags, 0x20).check(b.color_table_config())
}

fn desc(cx: &mut Cx, n: usize, ops: &mut Vec<String>) -> R {
    cx.class("desc");
    let mut b = ImageDesc::default();
    let mut m = DescM { mask: 0xFF, ..Default::default() };
    check_desc(&b, &m)?;
    for _ in 0..n {
        match cx.t.draw(6) {
            0 => {
                m.l = cx.t.word();
                b = b.with_left(m.l);
                ops.push(format!("left {}", m.l));
            }
            1 => {
                m.t = cx.t.word();
                b = b.with_top(m.t);
                ops.push(format!("top {}", m.t));
            }
            2 => {
                m.w = cx.t.word();
                b = b.with_width(m.w);
                ops.push(format!("width {}", m.w));
            }
            3 => {
                m.h = cx.t.word();
                b = b.with_height(m.h);
                ops.push(format!("height {}", m.h));
            }
            4 => {
                m.flags = cx.t.byte();
                m.mask = 0xFF;
                b = b.with_flags(m.flags);
                ops.push(format!("flags {:#04x}", m.flags));
            }
            5 => {
                let i = cx.t.flag();
                m.flags = m.flags & 0xBF | (i as u8) << 6;
                b = b.with_interlaced(i);
                ops.push(format!("interlaced {i}"));
            }
            _ => {
                let (c, cfg) = Conf::draw(cx.t);
                b = b.with_color_table_config(cfg);
                ops.push(format!("table {c:?}"));
                desc_conf(&mut m, c);
            }
        }
        check_desc(&b, &m)?;
        let f = Frame::new(None, b, None, ImageData::new(0));
        same("frame's place", (f.left(), f.top(), f.width(), f.height()), (m.l, m.t, m.w, m.h))?;
        same("frame's disposal", f.disposal_method(), DisposalMethod::NoAction)?;
        same("frame's transparent colour", f.transparent_color(), None)?;
        let r = f.region();
        same("region", r, pix::Region::new(m.l as i32, m.t as i32, m.w as u32, m.h as u32))?;
    }
    Ok(())
}

fn desc_conf(m: &mut DescM, c: Conf) {
    m.flags = m.flags & 0x58 | (c.present as u8) << 7 | (c.sorted as u8) << 5 | c.bits;
    m.mask = if c.present { 0xFF } else { 0xF8 };
}

// ----------------------------------------------------------------- payload

fn refused(what: &str, len: usize, f: impl FnOnce()) -> R {
    match guard(what, f) {
        Ok(()) => Err(format!("{what} accepts {len} bytes")),
        Err(_) => Ok(()),
    }
}

fn payloads(cx: &mut Cx, n: usize, ops: &mut Vec<String>) -> R {
    cx.class("payload");
    let kind = cx.t.draw(3);
    let mut text = PlainText::default();
    let mut com = Comment::default();
    let mut app = Application::default();
    let mut unk = Unknown::default();
    let mut m: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        let bad = cx.t.chance(1, 8);
        let len = if bad { cx.t.pick(&[0usize, 256, 257, 300, 511, 512, 1000, 65536, 65537]) } else { sub_len(cx.t, false) };
        let p = payload(cx.t, len);
        ops.push(format!("{kind} {len}"));
        let mut add = || match kind {
            0 => text.add_sub_block(&p),
            1 => com.add_comment(&p),
            2 => app.add_app_data(&p),
            _ => unk.add_sub_block(&p),
        };
        if bad {
            cx.class("illegal payload");
            refused(["add_sub_block", "add_comment", "add_app_data", "unknown's add_sub_block"][kind as usize], len, add)?;
        } else {
            add();
            m.push(p);
        }
        match kind {
            0 => same("sub_blocks", text.sub_blocks(), &m)?,
            1 => same("comments", com.comments(), &m)?,
            2 => {
                same("app_data", app.app_data(), &m)?;
                same("loop_count", app.loop_count(), loop_count(&m))?;
            }
            _ => {
                same("ext_id", unk.ext_id(), m.first().map(|v| &v[..]).unwrap_or(&[]))?;
                same("sub_blocks", unk.sub_blocks(), if m.is_empty() { &[] } else { &m[1..] })?;
            }
        }
    }
    Ok(())
}

fn application(cx: &mut Cx, ops: &mut Vec<String>) -> R {
    cx.class("application");
    cx.nontrivial(true);
    let mut subs = if cx.t.flag() { other_app(cx.t, true) } else { loop_app(cx.t, 513) };
    // change it a little
    match cx.t.draw(10) {
        0 => {
            let k = cx.t.usize(0, subs[0].len() - 1);
            subs[0][k] ^= 1 << cx.t.draw(7);
        }
        1 => {
            subs[0].pop();
        }
        2 => subs[0].push(b'0'),
        3 => subs.push(vec![1]),
        4 if subs.len() > 1 => subs[1].push(0),
        5 if subs.len() > 1 && subs[1].len() > 1 => {
            subs[1].pop();
        }
        6 if subs.len() > 1 => subs[1][0] = cx.t.byte(),
        7 if subs.len() > 1 => subs.swap(0, 1),
        // such as the buffering request of some browsers
        8 => {
            let n = cx.t.usize(1, 6);
            let first = cx.t.pick(&[2, 1, 0]);
            subs.push(std::iter::once(first).chain((1..n).map(|_| cx.t.byte())).collect());
        }
        // the same more than once
        9 => subs.push(subs[subs.len() - 1].clone()),
        _ => {}
    }
    subs.retain(|s| !s.is_empty());
    ops.push(format!("{subs:02x?}"));
    let mut a = Application::default();
    for s in &subs {
        a.add_app_data(s);
    }
    let want = loop_count(&subs);
    cx.class(if want.is_some() { "loop count" } else { "no loop count" });
    same("loop_count", a.loop_count(), want)?;
    same("app_data", a.app_data(), &subs)
}

fn tables(cx: &mut Cx, ops: &mut Vec<String>) -> R {
    cx.class("table");
    cx.nontrivial(true);
    let n = cx.t.usize(0, 800);
    let p = payload(cx.t, n);
    ops.push(format!("{n} bytes {:02x?}", &p[..n.min(6)]));
    if n % 3 != 0 {
        refused("GlobalColorTable::with_colors", n, || drop(GlobalColorTable::with_colors(&p)))?;
        return refused("LocalColorTable::with_colors", n, || drop(LocalColorTable::with_colors(&p)));
    }
    let g = GlobalColorTable::with_colors(&p);
    same("global", (g.len(), g.is_empty(), g.colors()), (n / 3, n == 0, &p[..]))?;
    let l = LocalColorTable::with_colors(&p);
    same("local", (l.len(), l.is_empty(), l.colors()), (n / 3, n == 0, &p[..]))
}

fn step(cx: &mut Cx, n: usize, ops: &mut Vec<String>) -> R {
    cx.class("step");
    let mut pal = palette(&[[1, 2, 3], [4, 5, 6]]);
    let true_color = cx.t.flag();
    let mut s = if true_color {
        Step::with_true_color(Raster::with_clear(1, 1))
    } else {
        Step::with_indexed(Raster::<Gray8>::with_clear(1, 1), std::mem::replace(&mut pal, palette(&[])))
    };
    let (mut delay, mut disp, mut trans) = (0u16, 0u8, None);
    for _ in 0..n {
        match cx.t.draw(3) {
            0 => {
                let d = if cx.t.chance(3, 4) { Some(cx.t.word()) } else { None };
                s = s.with_delay_time_cs(d);
                delay = d.unwrap_or(0);
                ops.push(format!("delay {d:?}"));
            }
            1 => {
                disp = cx.t.draw(7) as u8;
                s = s.with_disposal_method(disposal(disp));
                ops.push(format!("disposal {disp}"));
            }
            2 => {
                trans = if cx.t.chance(3, 4) { Some(cx.t.byte()) } else { None };
                s = s.with_transparent_color(trans);
                ops.push(format!("transparent {trans:?}"));
            }
            _ => {
                s = s.clone();
                ops.push("clone".into());
            }
        }
        same("delay", s.delay_time_cs().unwrap_or(0), delay)?;
        same("transparent", s.transparent_color(), trans)?;
    }
    if true_color {
        return Ok(());
    }
    // the disposal method shows in the file only
    let sink = Sink::plain();
    let mut e = Encoder::new(sink.clone()).into_step_enc();
    e.encode_step(&s).map_err(|e| format!("encode_step: {e}"))?;
    drop(e);
    let p = parse(&sink.bytes())?;
    let g = p.blocks.iter().find_map(|b| match b {
        RBlock::Gce { flags, delay, tidx } => Some((*flags, *delay, *tidx)),
        _ => None,
    });
    let (f, d, i) = g.unwrap_or_default();
    same("written disposal", (f >> 2) & 7, disp)?;
    same("written delay", d, delay)?;
    same("written transparency", if f & 1 != 0 { Some(i) } else { None }, trans)
}

fn others(cx: &mut Cx, ops: &mut Vec<String>) -> R {
    cx.class("others");
    cx.nontrivial(true);
    let v = [cx.t.byte(), cx.t.byte(), cx.t.byte()];
    ops.push(format!("version {v:?}"));
    same("version", Header::with_version(v).version(), v)?;
    same("version", Header::default().version(), *b"89a")?;
    let (w, h) = (cx.t.usize(1, 9) as u32, cx.t.usize(1, 9) as u32);
    let px = pixels(cx.t, (w * h) as usize, 256);
    let mut r = Raster::<Gray8>::with_clear(w, h);
    for (p, v) in r.pixels_mut().iter_mut().zip(&px) {
        *p = Gray8::new(*v);
    }
    let mut d = ImageData::from(&r);
    same("image data", d.data(), &px[..])?;
    d.data_mut().push(9);
    same("image data length", d.data().len(), px.len() + 1)?;
    same("new image data", ImageData::new(px.len()).data(), &[])?;
    let (a, b) = (cx.t.word(), cx.t.word());
    ops.push(format!("screen {a}x{b}"));
    let p = Preamble {
        logical_screen_desc: LogicalScreenDesc::default().with_screen_width(a).with_screen_height(b),
        ..Default::default()
    };
    same("preamble size", (p.screen_width(), p.screen_height()), (a, b))?;
    let c = ColorTableConfig::default();
    same("default table", (c.existence(), c.ordering(), c.len()), (ColorTableExistence::Absent, ColorTableOrdering::NotSorted, 0))
}

/// Enumerated: all table lengths, all flags bytes with all table
/// configurations, all loop counts, all disposal values, all payload lengths
fn enum_n(_: Tier) -> u64 {
    256 + 256 + 256 + 256 + 1
}

fn enum_run(cx: &mut Cx, i: u64) -> R {
    cx.key(i);
    cx.nontrivial(true);
    let k = (i % 256) as u8;
    match i / 256 {
        0 => {
            for lo in 0..=255u16 {
                let len = (k as u16) << 8 | lo;
                for f in 0..4 {
                    let c = Conf { present: f & 1 != 0, sorted: f & 2 != 0, bits: bits_for(len) };
                    c.check(make(c.present, c.sorted, len)).map_err(|e| format!("table length {len}: {e}"))?;
                }
            }
            Ok(())
        }
        1 => {
            // flags byte k, then a table configuration, and the other way round
            for f in 0..4 {
                for bits in 0..8u8 {
                    let c = Conf { present: f & 1 != 0, sorted: f & 2 != 0, bits };
                    let cfg = make(c.present, c.sorted, 2 << bits);
                    let at = |e| format!("flags {k:#04x}, {c:?}: {e}");
                    let mut m = DescM { flags: k, mask: 0xFF, ..Default::default() };
                    let b = ImageDesc::default().with_flags(k);
                    check_desc(&b, &m).map_err(at)?;
                    desc_conf(&mut m, c);
                    let b = b.with_color_table_config(cfg);
                    check_desc(&b, &m).map_err(at)?;
                    let b = b.with_interlaced(k & 0x40 == 0);
                    m.flags ^= 0x40;
                    check_desc(&b, &m).map_err(at)?;
                    let b = b.with_flags(k);
                    check_desc(&b, &DescM { flags: k, mask: 0xFF, ..Default::default() }).map_err(at)?;
                    let mut m = ScreenM { flags: k, mask: 0xFF, ..Default::default() };
                    let b = LogicalScreenDesc::default().with_flags(k);
                    check_screen(b, &m).map_err(at)?;
                    screen_conf(&mut m, c);
                    let b = b.with_color_table_config(cfg);
                    check_screen(b, &m).map_err(at)?;
                    // a configuration which was read can be set again
                    let b = LogicalScreenDesc::default().with_color_table_config(ImageDesc::default().with_flags(k).color_table_config());
                    Conf::of_flags(k, 0x20).check(b.color_table_config()).map_err(at)?;
                }
                let mut g = GraphicControl::default();
                g.set_flags(k);
                check_control(g, k, 0, 0)?;
                for d in 0..8 {
                    g.set_flags(k);
                    g.set_disposal_method(disposal(d));
                    check_control(g, k & 0xE3 | d << 2, 0, 0)?;
                }
                g.set_flags(k);
                g.set_user_input(k & 2 == 0);
                check_control(g, k ^ 2, 0, 0)?;
                g.set_transparent_color(Some(k));
                check_control(g, (k ^ 2) | 1, 0, k)?;
                g.set_transparent_color(None);
                check_control(g, (k ^ 2) & 0xFE, 0, g.transparent_color_idx())?;
            }
            Ok(())
        }
        2 => {
            for lo in 0..=255u16 {
                let n = (k as u16) << 8 | lo;
                let a = Application::with_loop_count(n);
                same("loop_count", a.loop_count(), Some(n))?;
                same("data", a.app_data(), &vec![b"NETSCAPE2.0".to_vec(), vec![1, lo as u8, k]])?;
                let mut b = Application::default();
                b.add_app_data(if lo % 2 == 0 { b"ANIMEXTS1.0" } else { b"NETSCAPE2.0" });
                b.add_app_data(&[1, lo as u8, k]);
                same("loop_count", b.loop_count(), Some(n))?;
            }
            Ok(())
        }
        3 => {
            let p = vec![7u8; k as usize];
            let mut t = PlainText::default();
            let mut c = Comment::default();
            let mut a = Application::default();
            let mut u = Unknown::default();
            if k == 0 {
                refused("plain text", 0, || t.add_sub_block(&p))?;
                refused("comment", 0, || c.add_comment(&p))?;
                refused("application", 0, || a.add_app_data(&p))?;
                refused("unknown", 0, || u.add_sub_block(&p))?;
                let p = vec![7u8; 256];
                refused("plain text", 256, || t.add_sub_block(&p))?;
                refused("comment", 256, || c.add_comment(&p))?;
                refused("application", 256, || a.add_app_data(&p))?;
                return refused("unknown", 256, || u.add_sub_block(&p));
            }
            t.add_sub_block(&p);
            c.add_comment(&p);
            a.add_app_data(&p);
            u.add_sub_block(&p);
            for g in [&t.sub_blocks()[0], &c.comments()[0], &a.app_data()[0], &u.ext_id().to_vec()] {
                same("payload", g, &p)?;
            }
            Ok(())
        }
        _ => {
            for d in 0..8u8 {
                same("disposal", u8::from(DisposalMethod::from(d)), d)?;
                same("disposal", DisposalMethod::from(d), disposal(d))?;
            }
            Ok(())
        }
    }
}
