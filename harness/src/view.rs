//! gift's values seen as values of the reference model.
use crate::io::{Feed, Token};
use crate::refgif::*;
use gift::block::*;
use gift::{Decoder, Error, Step};
use std::io::Read;

/// Comparable description of an error
pub fn err_name(e: &Error) -> String {
    match e {
        Error::Io(e) => format!("Io({:?})", e.kind()),
        Error::TryFromInt(_) => "TryFromInt".into(),
        Error::UnsupportedVersion(v) => format!("UnsupportedVersion({v:?})"),
        e => format!("{e:?}"),
    }
}

/// Does this error carry the injected I/O error?
pub fn carries(e: &Error, kind: std::io::ErrorKind, tok: u64) -> Result<(), String> {
    use std::error::Error as _;
    let Error::Io(io) = e else {
        return Err(format!("got {} instead of the injected I/O error", err_name(e)));
    };
    if io.kind() != kind {
        return Err(format!("I/O error kind {:?} instead of {kind:?}", io.kind()));
    }
    let has = |io: &std::io::Error| io.get_ref().and_then(|r| r.downcast_ref::<Token>()) == Some(&Token(tok));
    if !has(io) {
        return Err("I/O error lost its payload".into());
    }
    match e.source().and_then(|s| s.downcast_ref::<std::io::Error>()) {
        Some(io) if has(io) => {}
        _ => return Err("source() is not the reader's error".into()),
    }
    if e.to_string() != format!("injected fault {tok}") {
        return Err(format!("I/O error displayed as {e}"));
    }
    Ok(())
}

pub fn block_view(b: &Block) -> RBlock {
    match b {
        Block::Header(b) => RBlock::Header(b.version()),
        Block::LogicalScreenDesc(b) => RBlock::Screen {
            w: b.screen_width(),
            h: b.screen_height(),
            flags: b.flags(),
            bg: b.background_color_idx(),
            aspect: b.pixel_aspect_ratio(),
        },
        Block::GlobalColorTable(b) => RBlock::Gct(b.colors().to_vec()),
        Block::PlainText(b) => RBlock::PlainText(b.sub_blocks().clone()),
        Block::GraphicControl(b) => {
            RBlock::Gce { flags: b.flags(), delay: b.delay_time_cs(), tidx: b.transparent_color_idx() }
        }
        Block::Comment(b) => RBlock::Comment(b.comments().clone()),
        Block::Application(b) => RBlock::App(b.app_data().clone()),
        Block::Unknown(b) => {
            let id = b.ext_id();
            assert_eq!(id.len(), 1, "unknown extension with id {id:?}");
            RBlock::Unknown(id[0], b.sub_blocks().to_vec())
        }
        Block::ImageDesc(b) => {
            RBlock::Desc { l: b.left(), t: b.top(), w: b.width(), h: b.height(), flags: b.flags() }
        }
        Block::LocalColorTable(b) => RBlock::Lct(b.colors().to_vec()),
        Block::ImageData(b) => RBlock::Image(RImage { pixels: b.data().to_vec(), min: 0, chunks: vec![] }),
        Block::Trailer(_) => RBlock::Trailer,
    }
}

/// A block without the representation of its LZW data
pub fn strip(b: &RBlock) -> RBlock {
    match b {
        RBlock::Image(i) => RBlock::Image(RImage { pixels: i.pixels.clone(), min: 0, chunks: vec![] }),
        b => b.clone(),
    }
}

pub fn same_block(a: &RBlock, b: &RBlock) -> bool {
    match (a, b) {
        (RBlock::Image(a), RBlock::Image(b)) => a.pixels == b.pixels,
        (a, b) => a == b,
    }
}

pub fn short(b: &RBlock) -> String {
    let s = match b {
        RBlock::Image(i) => format!("Image({} px: {:?})", i.pixels.len(), &i.pixels[..i.pixels.len().min(40)]),
        b => format!("{b:?}"),
    };
    if s.len() > 300 { format!("{}…", s.chars().take(300).collect::<String>()) } else { s }
}

pub fn to_gift(b: &RBlock) -> Block {
    match b {
        RBlock::Header(v) => Header::with_version(*v).into(),
        RBlock::Screen { w, h, flags, bg, aspect } => LogicalScreenDesc::default()
            .with_screen_width(*w)
            .with_screen_height(*h)
            .with_flags(*flags)
            .with_background_color_idx(*bg)
            .with_pixel_aspect_ratio(*aspect)
            .into(),
        RBlock::Gct(c) => GlobalColorTable::with_colors(c).into(),
        RBlock::PlainText(s) => {
            let mut b = PlainText::default();
            s.iter().for_each(|s| b.add_sub_block(s));
            b.into()
        }
        RBlock::Gce { flags, delay, tidx } => gce(*flags, *delay, *tidx).into(),
        RBlock::Comment(s) => comment(s).into(),
        RBlock::App(s) => app(s).into(),
        RBlock::Unknown(id, s) => {
            let mut b = Unknown::default();
            b.add_sub_block(&[*id]);
            s.iter().for_each(|s| b.add_sub_block(s));
            b.into()
        }
        RBlock::Desc { l, t, w, h, flags } => desc(*l, *t, *w, *h, *flags).into(),
        RBlock::Lct(c) => LocalColorTable::with_colors(c).into(),
        RBlock::Image(i) => image(&i.pixels).into(),
        RBlock::Trailer => Trailer::default().into(),
    }
}

pub fn gce(flags: u8, delay: u16, tidx: u8) -> GraphicControl {
    let mut b = GraphicControl::default();
    b.set_flags(flags);
    b.set_delay_time_cs(delay);
    b.set_transparent_color_idx(tidx);
    b
}

pub fn comment(s: &[Vec<u8>]) -> Comment {
    let mut b = Comment::default();
    s.iter().for_each(|s| b.add_comment(s));
    b
}

pub fn app(s: &[Vec<u8>]) -> Application {
    let mut b = Application::default();
    s.iter().for_each(|s| b.add_app_data(s));
    b
}

pub fn desc(l: u16, t: u16, w: u16, h: u16, flags: u8) -> ImageDesc {
    ImageDesc::default().with_left(l).with_top(t).with_width(w).with_height(h).with_flags(flags)
}

pub fn image(px: &[u8]) -> ImageData {
    let mut b = ImageData::new(px.len());
    b.data_mut().extend_from_slice(px);
    b
}

pub fn frame_view(f: &Frame) -> RFrame {
    RFrame {
        gce: f.graphic_control_ext.map(|g| (g.flags(), g.delay_time_cs(), g.transparent_color_idx())),
        l: f.image_desc.left(),
        t: f.image_desc.top(),
        w: f.image_desc.width(),
        h: f.image_desc.height(),
        flags: f.image_desc.flags(),
        lct: f.local_color_table.as_ref().map(|t| t.colors().to_vec()),
        pixels: f.image_data.data().to_vec(),
    }
}

pub fn frame_to_gift(f: &RFrame) -> Frame {
    Frame::new(
        f.gce.map(|g| gce(g.0, g.1, g.2)),
        desc(f.l, f.t, f.w, f.h, f.flags),
        f.lct.as_ref().map(|c| LocalColorTable::with_colors(c)),
        image(&f.pixels),
    )
}

pub fn preamble_view(p: &Preamble) -> RPreamble {
    let s = p.logical_screen_desc;
    RPreamble {
        version: p.header.version(),
        screen: (s.screen_width(), s.screen_height(), s.flags(), s.background_color_idx(), s.pixel_aspect_ratio()),
        gct: p.global_color_table.as_ref().map(|t| t.colors().to_vec()),
        looping: p.loop_count_ext.as_ref().map(|a| (a.app_data().clone(), a.loop_count().unwrap_or(0xDEAD))),
        comments: p.comments.iter().map(|c| c.comments().clone()).collect(),
    }
}

pub fn preamble_to_gift(p: &RPreamble) -> Preamble {
    let (w, h, flags, bg, aspect) = p.screen;
    Preamble {
        header: Header::with_version(p.version),
        logical_screen_desc: LogicalScreenDesc::default()
            .with_screen_width(w)
            .with_screen_height(h)
            .with_flags(flags)
            .with_background_color_idx(bg)
            .with_pixel_aspect_ratio(aspect),
        global_color_table: p.gct.as_ref().map(|c| GlobalColorTable::with_colors(c)),
        loop_count_ext: p.looping.as_ref().map(|l| app(&l.0)),
        comments: p.comments.iter().map(|c| comment(c)).collect(),
    }
}

pub fn step_view(s: &Step) -> RStep {
    let r = s.raster();
    RStep {
        w: r.width() as u16,
        h: r.height() as u16,
        rgba: r.as_u8_slice().to_vec(),
        delay: s.delay_time_cs().unwrap_or(0),
        trans: s.transparent_color(),
    }
}

/// First difference of two steps
pub fn step_diff(got: &RStep, want: &RStep) -> Option<String> {
    if got == want {
        return None;
    }
    if (got.w, got.h) != (want.w, want.h) {
        return Some(format!("size {}x{} instead of {}x{}", got.w, got.h, want.w, want.h));
    }
    if got.delay != want.delay {
        return Some(format!("delay {} instead of {}", got.delay, want.delay));
    }
    if got.trans != want.trans {
        return Some(format!("transparent {:?} instead of {:?}", got.trans, want.trans));
    }
    let i = got.rgba.iter().zip(&want.rgba).position(|(a, b)| a != b).unwrap_or(0) / 4;
    let w = want.w.max(1) as usize;
    Some(format!(
        "pixel ({},{}) is {:?} instead of {:?}",
        i % w,
        i / w,
        got.rgba.get(4 * i..4 * i + 4),
        want.rgba.get(4 * i..4 * i + 4)
    ))
}

/// What an iterator did
pub struct Seq<T> {
    pub items: Vec<T>,
    pub err: Option<Error>,
    /// The call after the last item or error returned None
    pub stopped: bool,
    /// Still going after the allowed number of items
    pub overrun: bool,
}

impl<T> Seq<T> {
    pub fn err_name(&self) -> Option<String> {
        self.err.as_ref().map(err_name)
    }
}

/// Take items up to the first error or end, and one call more
pub fn collect<T, U>(
    mut it: impl Iterator<Item = Result<T, Error>>,
    max: usize,
    view: impl Fn(T) -> U,
) -> Seq<U> {
    let mut s = Seq { items: vec![], err: None, stopped: false, overrun: false };
    loop {
        match it.next() {
            None => {
                s.stopped = true;
                return s;
            }
            Some(Ok(x)) => {
                if s.items.len() >= max {
                    s.overrun = true;
                    return s;
                }
                s.items.push(view(x));
            }
            Some(Err(e)) => {
                s.err = Some(e);
                s.stopped = it.next().is_none();
                return s;
            }
        }
    }
}

/// Upper bound of blocks in n bytes: every block takes a byte or more
pub fn bound(n: usize) -> usize {
    n + 4
}

pub fn blocks<R: Read>(r: R, n: usize, max: Option<Option<usize>>) -> Seq<RBlock> {
    collect(dec(r, max).into_blocks(), bound(n), |b| block_view(&b))
}

pub fn frames<R: Read>(r: R, n: usize, max: Option<Option<usize>>) -> Seq<RFrame> {
    collect(dec(r, max).into_frames(), bound(n), |f| frame_view(&f))
}

/// Frames after asking for the preamble, whose error is the first one
pub fn frames_after<R: Read>(r: R, n: usize, max: Option<Option<usize>>) -> Seq<RFrame> {
    let mut it = dec(r, max).into_frames();
    if let Err(e) = it.preamble() {
        return Seq { items: vec![], err: Some(e), stopped: it.next().is_none(), overrun: false };
    }
    collect(it, bound(n), |f| frame_view(&f))
}

pub fn steps<R: Read>(r: R, n: usize, max: Option<Option<usize>>) -> Seq<RStep> {
    collect(dec(r, max).into_steps(), bound(n), |s| step_view(&s))
}

pub fn looping<R: Read>(r: R, n: usize, max: Option<Option<usize>>) -> Seq<RStep> {
    collect(dec(r, max).into_iter(), n, |s| step_view(&s))
}

pub fn dec<R: Read>(r: R, max: Option<Option<usize>>) -> Decoder<R> {
    let d = Decoder::new(r);
    match max {
        Some(m) => d.max_image_sz(m),
        None => d,
    }
}

/// Compare decoded blocks with the model's
pub fn cmp_blocks(got: &[RBlock], want: &[RBlock]) -> Result<(), String> {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if !same_block(g, w) {
            return Err(format!("block {i} is {} instead of {}", short(g), short(w)));
        }
    }
    if got.len() != want.len() {
        return Err(format!("{} blocks instead of {}", got.len(), want.len()));
    }
    Ok(())
}

pub fn cmp_frames(got: &[RFrame], want: &[RFrame]) -> Result<(), String> {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g != w {
            let mut g = g.clone();
            let mut w = w.clone();
            if g.pixels == w.pixels {
                g.pixels.clear();
                w.pixels.clear();
            }
            g.pixels.truncate(64);
            w.pixels.truncate(64);
            return Err(format!("frame {i} is {g:?} instead of {w:?}"));
        }
    }
    if got.len() != want.len() {
        return Err(format!("{} frames instead of {}", got.len(), want.len()));
    }
    Ok(())
}

pub fn cmp_steps(got: &[RStep], want: &[RStep]) -> Result<(), String> {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if let Some(d) = step_diff(g, w) {
            return Err(format!("step {i}: {d}"));
        }
    }
    if got.len() != want.len() {
        return Err(format!("{} steps instead of {}", got.len(), want.len()));
    }
    Ok(())
}

pub fn feed(b: &[u8]) -> Feed<'_> {
    Feed::new(b)
}
