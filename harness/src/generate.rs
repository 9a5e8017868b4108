//! Generators of images and GIF models.
use crate::io::Plan;
use crate::refgif::*;
use crate::tape::{Rng, Tape};

/// Number of different indices in an image: around powers of two
pub fn nsym(t: &mut Tape) -> usize {
    match t.weighted(&[4, 3, 2]) {
        0 => t.pick(&[2, 1, 3, 4, 5, 8, 9, 16, 17]),
        1 => t.usize(1, 256),
        _ => t.pick(&[256, 255, 7, 15, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 253]),
    }
}

/// Pixels with n_sym possible values
pub fn pixels(t: &mut Tape, n: usize, n_sym: usize) -> Vec<u8> {
    let top = n_sym as u64 - 1;
    if n <= 24 && !t.chance(1, 6) {
        return (0..n).map(|_| t.draw(top) as u8).collect();
    }
    let mut px = vec![0u8; n];
    fill(t, &mut px, n_sym, 0);
    // the largest index decides the code size: make sure it can occur
    if n > 0 && t.flag() {
        let i = t.usize(0, n - 1);
        px[i] = top as u8;
    }
    px
}

fn fill(t: &mut Tape, px: &mut [u8], n_sym: usize, depth: usize) {
    let top = n_sym as u64 - 1;
    let n = px.len();
    let kind = t.weighted(&[2, 4, 3, 3, 2, 2, 2, if depth < 2 { 3 } else { 0 }, 1]);
    let mut r = t.bulk();
    match kind {
        // constant
        0 => px.fill(r.upto(top) as u8),
        // uniform
        1 => px.iter_mut().for_each(|p| *p = r.upto(top) as u8),
        // runs of geometric length
        2 => {
            let mean = t.pick(&[2, 5, 20, 100, 1000]);
            let mut c = r.upto(top) as u8;
            for p in px.iter_mut() {
                if r.below(mean) == 0 {
                    c = r.upto(top) as u8;
                }
                *p = c;
            }
        }
        // periodic, with occasional noise
        3 => {
            let period = t.pick(&[1, 2, 3, 4, 7, 16, 61, 255, 256, 1000]);
            let noise = t.pick(&[0, 0, 1000, 100, 10]);
            let pat: Vec<u8> = (0..period).map(|_| r.upto(top) as u8).collect();
            for (i, p) in px.iter_mut().enumerate() {
                *p = if noise > 0 && r.below(noise) == 0 { r.upto(top) as u8 } else { pat[i % period] };
            }
        }
        // counting (all pairs eventually): fills the dictionary quickly
        4 => {
            let (mut a, mut s) = (0u64, 1u64);
            for p in px.iter_mut() {
                *p = (a % (top + 1)) as u8;
                a += s;
                if a > top {
                    a = 0;
                    s += 1;
                }
            }
        }
        // Thue-Morse on two symbols
        5 => {
            let (a, b) = (r.upto(top) as u8, r.upto(top) as u8);
            for (i, p) in px.iter_mut().enumerate() {
                *p = if i.count_ones() & 1 == 0 { a } else { b };
            }
        }
        // skewed: mostly few symbols
        6 => px.iter_mut().for_each(|p| {
            let x = r.upto(top);
            let y = r.upto(top);
            let z = r.upto(top);
            *p = x.min(y).min(z) as u8
        }),
        // two halves of different kinds
        7 => {
            let m = if n == 0 { 0 } else { r.below(n as u64 + 1) as usize };
            let (a, b) = px.split_at_mut(m);
            fill(t, a, n_sym, depth + 1);
            fill(t, b, n_sym, depth + 1);
        }
        // gradient
        _ => {
            let d = (n / n_sym).max(1);
            for (i, p) in px.iter_mut().enumerate() {
                *p = ((i / d) as u64).min(top) as u8;
            }
        }
    }
}

/// Image dimensions with at most `max` pixels; small ones most likely
pub fn dims(t: &mut Tape, max: usize) -> (u16, u16) {
    let area = match t.weighted(&[39, 28, 20, 10, 2, 1]) {
        0 => t.usize(1, 24),
        1 => t.usize(1, 600),
        2 => t.usize(1, 6_000),
        3 => t.usize(1, 50_000),
        4 => t.usize(1, 300_000),
        _ => {
            let (w, h) = narrow(t);
            if w as usize * h as usize <= max {
                return (w, h);
            }
            max
        }
    }
    .min(max);
    shape(t, area)
}

/// A long and narrow area, of a length where something may change
pub fn narrow(t: &mut Tape) -> (u16, u16) {
    let a = t.usize(1, 3) as u16;
    let b = match t.weighted(&[3, 2, 1]) {
        0 => t.pick(&[127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513]),
        1 => t.pick(&[999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]),
        _ => t.pick(&[5000, 8191, 8192, 9999, 10000, 16383, 16384, 32767, 32768, 65534, 65535]),
    };
    if t.flag() { (a, b) } else { (b, a) }
}

/// Dimensions with about `area` pixels
pub fn shape(t: &mut Tape, area: usize) -> (u16, u16) {
    let area = area.max(1);
    let root = (area as f64).sqrt() as usize;
    let w = match t.weighted(&[5, 2, 2, 2]) {
        0 => root.max(1),
        1 => area,
        2 => 1,
        _ => t.usize(1, area),
    }
    .clamp(area.div_ceil(65535), 65535);
    let h = (area / w).clamp(1, 65535);
    (w as u16, h as u16)
}

/// Bytes which are not like noise: all the same, counting, text, or what looks
/// like parts of a file
pub fn regular(t: &mut Tape, len: usize) -> Vec<u8> {
    let text = |s: &[u8]| -> Vec<u8> { s.iter().copied().cycle().take(len).collect() };
    let mut v = match t.draw(10) {
        0 => vec![0; len],
        1 => vec![255; len],
        2 => vec![t.byte(); len],
        3 => text(b"Made with care. \r\n\tx"),
        4 => text("\u{E4}\u{20AC}\u{1F600} \u{FEFF}".as_bytes()),
        5 => text(b"GIF89a;,\0\0!\xF9\x04\0\0"),
        6 => (0..len).map(|i| i as u8).collect(),
        7 => (0..len).map(|i| (len - i) as u8).collect(),
        8 => text(b"\xEF\xBB\xBF marked\0"),
        9 => {
            // shades of grey
            let mut r = t.bulk();
            (0..len.div_ceil(3)).flat_map(|_| [r.upto(255) as u8; 3]).take(len).collect()
        }
        _ => text(&[t.byte(), t.byte(), t.byte()]),
    };
    if len > 0 && t.chance(1, 3) {
        let i = if t.flag() { len - 1 } else { 0 };
        v[i] = t.pick(&[0, 255, b' ', b'\n', 1, 127, 128]);
    }
    v
}

pub fn payload(t: &mut Tape, len: usize) -> Vec<u8> {
    if t.chance(1, 5) {
        return regular(t, len);
    }
    if len <= 8 {
        return (0..len).map(|_| t.byte()).collect();
    }
    let mut r = t.bulk();
    (0..len).map(|_| r.upto(255) as u8).collect()
}

pub fn sub_len(t: &mut Tape, small: bool) -> usize {
    if small {
        return t.usize(1, 5);
    }
    match t.weighted(&[6, 2, 3]) {
        0 => t.usize(1, 12),
        1 => t.usize(1, 255),
        _ => t.pick(&[1, 2, 3, 4, 11, 127, 128, 129, 253, 254, 255]),
    }
}

pub fn subs(t: &mut Tape, small: bool) -> Vec<Vec<u8>> {
    let n = match t.weighted(&[100, 40, 40, 20, if small { 0 } else { 1 }]) {
        0 => 1,
        1 => 0,
        2 => t.usize(2, 4),
        3 => t.usize(2, if small { 4 } else { 12 }),
        _ => t.usize(13, 600),
    };
    (0..n)
        .map(|_| {
            let l = sub_len(t, small);
            payload(t, l)
        })
        .collect()
}

pub fn loop_app(t: &mut Tape, n: u16) -> Vec<Vec<u8>> {
    let id: &[u8] = t.pick(&[&b"NETSCAPE2.0"[..], &b"ANIMEXTS1.0"[..]]);
    vec![id.to_vec(), vec![1, (n & 0xFF) as u8, (n >> 8) as u8]]
}

/// An application block which is not a loop count, though it may look like one
pub fn other_app(t: &mut Tape, small: bool) -> Vec<Vec<u8>> {
    let lc = vec![1, t.byte(), t.byte()];
    match t.weighted(&[3, 1, 1, 1, 1, 1, 1, 1]) {
        0 => {
            let mut v = vec![b"XMP DataXMP".to_vec()];
            v.extend(subs(t, small));
            v
        }
        1 => vec![b"NETSCAPE2.0".to_vec()],
        2 => vec![b"NETSCAPE2.1".to_vec(), lc],
        3 => vec![b"NETSCAPE2.0".to_vec(), vec![2, lc[1], lc[2]]],
        4 => {
            let id = t.pick(&[*b"NETSCAPE2.0", *b"ANIMEXTS1.0"]);
            let more = match t.draw(3) {
                0 => vec![0],
                1 => lc.clone(),
                2 => vec![1, t.byte(), t.byte()],
                _ => vec![2, t.byte(), t.byte(), 0, 0],
            };
            let mut v = vec![id.to_vec(), lc];
            v.insert(t.pick(&[2, 1, 0]), more);
            v
        }
        5 => vec![b"ANIMEXTS1.0".to_vec(), vec![1, lc[1], lc[2], 0]],
        6 => vec![b"NETSCAPE2.0 ".to_vec(), lc],
        _ => vec![b"ANIMEXTS1.0".to_vec(), vec![1, lc[1]]],
    }
}

#[derive(Clone, Debug)]
pub struct GifOpts {
    pub frames: (usize, usize),
    /// Frames lie inside the screen, have tables, and valid indices
    pub steps: bool,
    /// Largest screen side, if `steps`
    pub side: u16,
    /// Largest image
    pub area: usize,
    /// Unusual LZW streams
    pub lzw: bool,
    /// Short payloads
    pub small: bool,
    /// Percentage of places with extensions
    pub ext: u64,
    /// Plain text extensions
    pub plain: bool,
    /// Frames without pixels
    pub empty: bool,
    /// Some long and narrow screens, if `steps`
    pub long: bool,
    /// Comments and loop counts may follow the first frame's graphic control
    pub late_meta: bool,
}

impl GifOpts {
    pub fn blocks() -> Self {
        GifOpts {
            frames: (0, 4),
            steps: false,
            side: 40,
            area: 20_000,
            lzw: true,
            small: false,
            ext: 40,
            plain: true,
            empty: true,
            late_meta: true,
            long: false,
        }
    }
    pub fn steps() -> Self {
        GifOpts { frames: (1, 6), steps: true, empty: false, ext: 15, ..Self::blocks() }
    }
    pub fn tiny() -> Self {
        GifOpts { frames: (1, 3), side: 4, area: 16, small: true, empty: false, ext: 20, ..Self::steps() }
    }
}

fn ext(t: &mut Tape, o: &GifOpts, meta: bool, plain: bool) -> RBlock {
    let w = [if meta { 4 } else { 0 }, if meta { 2 } else { 0 }, 2, 2, if plain && o.plain { 2 } else { 0 }];
    match t.weighted(&w) {
        0 => RBlock::Comment(subs(t, o.small)),
        1 => {
            let n = t.word();
            RBlock::App(loop_app(t, n))
        }
        2 => RBlock::App(other_app(t, o.small)),
        3 => {
            let mut id = t.byte();
            while [0x01, 0xF9, 0xFE, 0xFF].contains(&id) {
                id = id.wrapping_add(1);
            }
            RBlock::Unknown(id, subs(t, o.small))
        }
        _ => RBlock::PlainText(subs(t, o.small)),
    }
}

fn exts(t: &mut Tape, o: &GifOpts, v: &mut Vec<RBlock>, meta: bool, plain: bool) {
    let mut n = 0;
    while n < 4 && t.chance(o.ext.max(1), 100) {
        v.push(ext(t, o, meta, plain));
        n += 1;
    }
}

pub fn table(t: &mut Tape, entries: usize) -> Vec<u8> {
    if t.chance(1, 6) {
        return regular(t, 3 * entries);
    }
    if entries <= 4 {
        return (0..3 * entries).map(|_| t.draw(255) as u8).collect();
    }
    let mut r = t.bulk();
    (0..3 * entries).map(|_| r.upto(255) as u8).collect()
}

/// A well-formed file
pub fn gif(t: &mut Tape, o: &GifOpts) -> Vec<RBlock> {
    // once in a while very many frames, which are small
    let many = o.frames.1 >= 4 && t.chance(1, 400);
    let few = GifOpts { side: o.side.min(6), area: o.area.min(30), ext: o.ext.min(10), long: false, ..o.clone() };
    let o = if many { &few } else { o };
    let mut v = vec![];
    v.push(RBlock::Header(if t.chance(1, 4) { *b"87a" } else { *b"89a" }));
    let n_frames = if many { t.usize(5, 300) } else { t.usize(o.frames.0, o.frames.1) };
    let (sw, sh) = if o.steps && o.long && t.chance(1, 40) {
        narrow(t)
    } else if o.steps {
        (t.usize(1, o.side as usize) as u16, t.usize(1, o.side as usize) as u16)
    } else {
        (t.word(), t.word())
    };
    let gct_bits = if o.small { t.draw(1) as u8 } else { t.draw(7) as u8 };
    let mut flags = (t.draw(0x0F) as u8) << 3 | gct_bits;
    let has_gct = t.chance(3, 4);
    if has_gct {
        flags |= 0x80;
    }
    v.push(RBlock::Screen { w: sw, h: sh, flags, bg: t.byte(), aspect: t.byte() });
    let gct_len = table_len(flags);
    if gct_len > 0 {
        v.push(RBlock::Gct(table(t, gct_len)));
    }
    exts(t, o, &mut v, true, true);
    for i in 0..n_frames {
        let first = i == 0;
        if t.chance(2, 3) {
            let mut flags = t.byte();
            if t.chance(1, 2) {
                // the defined disposal methods
                flags = (flags & 0xE3) | (t.draw(3) as u8) << 2;
            }
            let mut tidx = t.byte();
            if t.flag() {
                tidx &= 3;
            }
            v.push(RBlock::Gce { flags, delay: t.word(), tidx });
            exts(t, o, &mut v, !first || o.late_meta, false);
        }
        let (l, tp, w, h);
        if o.steps {
            let full = t.chance(2, 5);
            if full {
                (l, tp, w, h) = (0, 0, sw, sh);
            } else {
                w = t.usize(1, sw as usize) as u16;
                h = t.usize(1, sh as usize) as u16;
                l = t.draw((sw - w) as u64) as u16;
                tp = t.draw((sh - h) as u64) as u16;
            }
        } else {
            (l, tp) = (t.word(), t.word());
            if o.empty && t.chance(1, 20) {
                let d = t.word();
                (w, h) = if t.flag() { (0, d) } else { (d, 0) };
            } else {
                (w, h) = dims(t, o.area);
            }
        }
        let local = t.chance(1, 3) || (o.steps && gct_len == 0);
        let bits = if o.small { t.draw(1) as u8 } else { t.draw(7) as u8 };
        let mut flags = bits | (t.draw(0x0F) as u8) << 3;
        if local {
            flags |= 0x80;
        }
        v.push(RBlock::Desc { l, t: tp, w, h, flags });
        let lct_len = table_len(flags);
        if local {
            v.push(RBlock::Lct(table(t, lct_len)));
        }
        let n_sym = if o.steps {
            let n = if local { lct_len } else { gct_len };
            if t.flag() { n } else { t.usize(1, n) }
        } else {
            nsym(t)
        };
        let px = pixels(t, w as usize * h as usize, n_sym);
        let img = if o.lzw && t.chance(2, 5) { lzw_image(t, px) } else { simple_image(&px) };
        v.push(RBlock::Image(img));
        exts(t, o, &mut v, true, true);
    }
    if !many && t.chance(1, 3) {
        share_tables(t, &mut v);
        echo(t, &mut v);
    }
    v.push(RBlock::Trailer);
    v
}

/// Give some frames with a table the colours of the global table or of the
/// frame before
fn share_tables(t: &mut Tape, v: &mut [RBlock]) {
    let mut last: Option<Vec<u8>> = None;
    for i in 0..v.len() {
        match &v[i] {
            RBlock::Gct(c) => last = Some(c.clone()),
            RBlock::Lct(c) => {
                let own = c.clone();
                if let Some(c) = &last
                    && c.len() >= own.len()
                    && t.flag()
                    && let RBlock::Desc { flags, .. } = &mut v[i - 1]
                {
                    *flags = *flags & 0xF8 | ((c.len() / 3).trailing_zeros() as u8 - 1);
                    v[i] = RBlock::Lct(c.clone());
                } else if t.flag() {
                    last = Some(own);
                }
            }
            _ => {}
        }
    }
}

/// Repeat some frames and comments, as they are or with a small difference
fn echo(t: &mut Tape, v: &mut Vec<RBlock>) {
    let mut i = 2;
    let mut start = None;
    while i < v.len() {
        match &v[i] {
            RBlock::Comment(_) if t.chance(1, 3) => {
                v.insert(i, v[i].clone());
                i += 1;
            }
            RBlock::Gce { .. } => start = Some(i),
            RBlock::PlainText(_) => start = None,
            RBlock::Desc { .. } => start = start.or(Some(i)),
            RBlock::Image(_) => {
                let from = start.take().unwrap();
                if t.chance(1, 3) {
                    // without other extensions
                    let mut group = v[from..=i].to_vec();
                    group.retain(|b| matches!(b, RBlock::Gce { .. } | RBlock::Desc { .. } | RBlock::Lct(_) | RBlock::Image(_)));
                    vary(t, &mut group);
                    let n = group.len();
                    v.splice(i + 1..i + 1, group);
                    i += n;
                }
            }
            _ => {}
        }
        i += 1;
    }
}

/// One small difference in the blocks of a frame
fn vary(t: &mut Tape, group: &mut Vec<RBlock>) {
    let k = t.draw(5);
    let n = group.len();
    match (k, &mut group[0]) {
        (1, RBlock::Gce { .. }) => drop(group.remove(0)),
        (1, _) => group.insert(0, RBlock::Gce { flags: t.byte(), delay: t.word(), tidx: t.byte() }),
        (2, RBlock::Gce { flags, .. }) => *flags ^= 1 << t.draw(7),
        (3, RBlock::Gce { delay, .. }) => *delay ^= 1 << t.draw(15),
        (4, _) => {
            if let RBlock::Image(i) = &group[n - 1]
                && !i.pixels.is_empty()
            {
                let mut px = i.pixels.clone();
                let k = t.pick(&[px.len() - 1, 0, px.len() / 2]);
                px[k] = px[t.usize(0, px.len() - 1)];
                group[n - 1] = RBlock::Image(simple_image(&px));
            }
        }
        (5, _) => {
            if let RBlock::Lct(c) = &mut group[n - 2] {
                let k = t.pick(&[c.len() - 1, 0, c.len() / 2]);
                c[k] ^= 1 << t.draw(7);
            }
        }
        _ => {}
    }
}

/// Number of large files
pub const BIG: u64 = 18;

/// Large files: sizes and counts which need more than 8 or 16 bits. Frames
/// lie inside the screen, have tables, and valid indices
pub fn big(i: u64, r: &mut Rng) -> Vec<RBlock> {
    let byte = |r: &mut Rng| r.upto(255) as u8;
    let noise = |r: &mut Rng, n: usize, top: u64| -> Vec<u8> { (0..n).map(|_| r.upto(top) as u8).collect() };
    let (sw, sh) = match i {
        8 => (310, 305),
        9 => (600, 600),
        10 => (65535, 4),
        11 => (1000, 1000),
        15 => (3, 65535),
        17 => (2000, 2000),
        _ => (20, 20),
    };
    let mut v = vec![RBlock::Header(*b"89a"), RBlock::Screen { w: sw, h: sh, flags: 0x87, bg: 1, aspect: 0 }];
    v.push(RBlock::Gct(noise(r, 768, 255)));
    let parts = |r: &mut Rng, n: usize, len: usize| -> Vec<Vec<u8>> { (0..n).map(|_| noise(r, len, 255)).collect() };
    let frame = |v: &mut Vec<RBlock>, (l, t, w, h): (u16, u16, u16, u16), flags: u8, r: &mut Rng, top: u64| {
        v.push(RBlock::Desc { l, t, w, h, flags });
        if flags & 0x80 != 0 {
            v.push(RBlock::Lct(noise(r, 3 * table_len(flags), 255)));
        }
        v.push(RBlock::Image(simple_image(&noise(r, w as usize * h as usize, top))));
    };
    let control = |v: &mut Vec<RBlock>, r: &mut Rng| {
        let flags = byte(r);
        v.push(RBlock::Gce { flags, delay: r.upto(65535) as u16, tidx: byte(r) & 3 });
    };
    match i {
        // many frames
        0 | 1 => {
            for k in 0..if i == 0 { 300 } else { 70_000 } {
                if k % 3 != 1 {
                    control(&mut v, r);
                }
                frame(&mut v, (k as u16 % 20, k as u16 / 20 % 20, 1, 1), 0, r, 255);
            }
        }
        // many parts of extensions
        2..=5 => {
            let (n, len) = if i % 2 == 0 { (300, 255) } else { (70_000, 1) };
            if i < 4 {
                v.push(RBlock::Comment(parts(r, n, len)));
            } else {
                v.push(RBlock::App(parts(r, n, len)));
                v.push(RBlock::Unknown(0x33, parts(r, n, len)));
                v.push(RBlock::PlainText(parts(r, n, len)));
            }
        }
        // many extensions
        6 => {
            for k in 0..300u16 {
                v.push(RBlock::Comment(parts(r, 1, 3)));
                v.push(RBlock::App(vec![b"NETSCAPE2.0".to_vec(), vec![1, (k + 5) as u8, (k >> 7) as u8]]));
                v.push(RBlock::Unknown(k as u8 & 0x70, parts(r, 2, 2)));
                v.push(RBlock::PlainText(parts(r, 2, 2)));
            }
        }
        7 => {
            for _ in 0..70_000 {
                v.push(RBlock::Comment(parts(r, 1, 1)));
            }
        }
        // many sub-blocks of one image
        8 => {
            let px = noise(r, 300 * 300, 255);
            let (data, _) = lzw_encode(&px, &LzwPlan::greedy(8), r);
            v.push(RBlock::Desc { l: 9, t: 5, w: 300, h: 300, flags: 0 });
            v.push(RBlock::Image(RImage { pixels: px, min: 8, chunks: data.iter().map(|b| vec![*b]).collect() }));
        }
        // large images
        9 => frame(&mut v, (0, 0, 600, 600), 0xC7, r, 255),
        10 => {
            frame(&mut v, (0, 0, 65535, 4), 0, r, 3);
            control(&mut v, r);
            frame(&mut v, (35, 1, 65500, 3), 0x40, r, 3);
            frame(&mut v, (65534, 3, 1, 1), 0, r, 3);
        }
        11 => {
            for k in 0..12u16 {
                control(&mut v, r);
                let (w, h) = (1 + r.upto(999) as u16, 1 + r.upto(999) as u16);
                let (l, t) = (r.upto((1000 - w) as u64) as u16, r.upto((1000 - h) as u64) as u16);
                frame(&mut v, (l, t, w, h), if k % 2 == 0 { 0x40 } else { 0x81 }, r, 3);
            }
        }
        12 => {
            for k in 0..300u16 {
                control(&mut v, r);
                let (w, h) = (1 + r.upto(19) as u16, 1 + r.upto(19) as u16);
                let (l, t) = (r.upto((20 - w) as u64) as u16, r.upto((20 - h) as u64) as u16);
                frame(&mut v, (l, t, w, h), if k % 3 == 0 { 0x81 } else { 0x40 * (k % 2) as u8 }, r, 3);
            }
        }
        13 => {
            control(&mut v, r);
            for k in 0..70_000u32 {
                v.push(RBlock::Unknown(k as u8 & 0x7E, parts(r, k as usize % 3, 2)));
            }
            frame(&mut v, (1, 2, 1, 1), 0, r, 255);
        }
        14 => {
            for _ in 0..300 {
                v.push(RBlock::Comment(vec![]));
                v.push(RBlock::PlainText(vec![]));
            }
        }
        15 => {
            frame(&mut v, (0, 0, 3, 65535), 0x40, r, 255);
            control(&mut v, r);
            frame(&mut v, (1, 300, 2, 65000), 0, r, 255);
        }
        16 => {
            for k in 0..300 {
                frame(&mut v, (k % 20, k / 20, 1, 2), 0x87, r, 255);
            }
        }
        _ => {
            frame(&mut v, (0, 0, 2000, 2000), 0, r, 255);
            frame(&mut v, (1, 1, 1999, 1999), 0, r, 0);
        }
    }
    // and something after all that
    control(&mut v, r);
    frame(&mut v, (1, 2, 2, 2), 0x80, r, 1);
    v.push(RBlock::Comment(parts(r, 1, 5)));
    v.push(RBlock::Trailer);
    v
}

pub fn lzw_image(t: &mut Tape, px: Vec<u8>) -> RImage {
    let plan = LzwPlan::draw(t, &px);
    let mut r = if plan.clear_p > 0 || plan.short_p > 0 { t.bulk() } else { Rng(0) };
    let (data, _) = lzw_encode(&px, &plan, &mut r);
    let chunks = split(&data, t);
    RImage { pixels: px, min: plan.min, chunks }
}

/// How a reader or writer splits its data
pub fn io_plan(t: &mut Tape) -> Plan {
    let mut p = Plan::default();
    match t.weighted(&[3, 2, 3, 1]) {
        0 => p.sizes = vec![1],
        1 => p.sizes = vec![t.usize(1, 300)],
        2 => {
            let n = t.usize(1, 6);
            p.sizes = (0..n).map(|_| t.usize(1, 40)).collect();
        }
        _ => {}
    }
    match t.weighted(&[3, 2, 1]) {
        0 => {}
        1 => {
            let n = t.usize(2, 6);
            p.intr = (0..n).map(|_| t.flag()).collect();
            p.intr.push(false);
        }
        _ => {
            // long storms
            let n = match t.draw(11) {
                11 => t.pick(&[300, 1_100, 5_000]),
                _ => t.usize(1, 50),
            };
            p.intr = vec![true; n];
            p.intr.push(false);
        }
    }
    p
}

pub fn summary(blocks: &[RBlock]) -> String {
    let mut s = String::new();
    for b in blocks {
        if s.len() > 600 {
            s.push_str(&format!(" … {} blocks", blocks.len()));
            break;
        }
        if !s.is_empty() {
            s.push(' ');
        }
        match b {
            RBlock::Header(v) => s.push_str(&String::from_utf8_lossy(v)),
            RBlock::Screen { w, h, flags, .. } => s.push_str(&format!("screen {w}x{h}/{flags:02x}")),
            RBlock::Gct(c) => s.push_str(&format!("gct{}", c.len() / 3)),
            RBlock::Lct(c) => s.push_str(&format!("lct{}", c.len() / 3)),
            RBlock::PlainText(v) => s.push_str(&format!("text{}", v.len())),
            RBlock::Gce { flags, delay, tidx } => s.push_str(&format!("gce({flags:02x},{delay},{tidx})")),
            RBlock::Comment(v) => s.push_str(&format!("comment{}", v.len())),
            RBlock::App(v) => match loop_count(v) {
                Some(n) => s.push_str(&format!("loop({n})")),
                None => s.push_str(&format!("app{}", v.len())),
            },
            RBlock::Unknown(id, v) => s.push_str(&format!("ext{id:02x}:{}", v.len())),
            RBlock::Desc { l, t, w, h, flags } => s.push_str(&format!("desc({l},{t} {w}x{h}/{flags:02x})")),
            RBlock::Image(i) => {
                s.push_str(&format!("image({} px, min {}, {} sub-blocks", i.pixels.len(), i.min, i.chunks.len()));
                if i.pixels.len() <= 24 {
                    s.push_str(&format!(", {:?}", i.pixels));
                }
                s.push(')');
            }
            RBlock::Trailer => s.push_str("end"),
        }
    }
    s
}

/// Classes of a file, for the distribution in the evidence
pub fn classify(cx: &mut crate::engine::Cx, blocks: &[RBlock]) {
    let (pre, frames) = group(blocks);
    cx.class(match frames.len() {
        0 => "frames:0",
        1 => "frames:1",
        2..=3 => "frames:2-3",
        _ => "frames:4+",
    });
    cx.class_if(pre.gct.is_some(), "gct");
    cx.class_if(pre.looping.is_some(), "loop count");
    for f in &frames {
        cx.class_if(f.lct.is_some(), "lct");
        cx.class_if(f.trans().is_some(), "transparent");
        cx.class_if(f.flags & 0x40 != 0, "interlaced");
        cx.class(match f.disposal() {
            0 => "disposal:none",
            1 => "disposal:keep",
            2 => "disposal:background",
            3 => "disposal:previous",
            _ => "disposal:reserved",
        });
        cx.class(match f.pixels.len() {
            0 => "area:0",
            1..=24 => "area:1-24",
            25..=600 => "area:25-600",
            601..=6000 => "area:601-6000",
            _ => "area:6001+",
        });
    }
    for b in blocks {
        match b {
            RBlock::Comment(_) => cx.class("comment"),
            RBlock::PlainText(_) => cx.class("plain text"),
            RBlock::Unknown(..) => cx.class("unknown ext"),
            RBlock::App(a) if loop_count(a).is_none() => cx.class("other app"),
            _ => {}
        }
    }
    let mut colors = pre.gct.as_ref();
    for f in &frames {
        if let Some(c) = &f.lct {
            cx.class_if(colors == Some(c), "shared table");
            colors = Some(c);
        }
    }
    let same = |w: &[RFrame]| w[0].pixels == w[1].pixels && w[0].lct == w[1].lct && w[0].pixels.len() > 1;
    cx.class_if(frames.windows(2).any(same), "repeated frame");
}

// ------------------------------------------------------------ wild inputs

/// Change a file a little
pub fn mutate(t: &mut Tape, b: &mut Vec<u8>) {
    let n = t.usize(1, 5);
    for _ in 0..n {
        if b.is_empty() {
            b.push(t.byte());
            continue;
        }
        // the start of the file has most of the structure
        let len = b.len();
        let i = if t.flag() { t.usize(0, len - 1) } else { t.usize(0, (len - 1).min(60)) };
        match t.weighted(&[4, 4, 2, 2, 2, 1, 1, 1]) {
            0 => b[i] = t.byte(),
            1 => b[i] ^= 1 << t.draw(7),
            2 => {
                b.remove(i);
            }
            3 => {
                let x = t.byte();
                b.insert(i, x);
            }
            4 => {
                let k = t.usize(1, 12);
                let p = payload(t, k);
                for (d, x) in b[i..].iter_mut().zip(p) {
                    *d = x;
                }
            }
            // copy a stretch somewhere else
            5 => {
                let e = (i + t.usize(1, 60)).min(len);
                let s = b[i..e].to_vec();
                let at = t.usize(0, len);
                b.splice(at..at, s);
            }
            // remove a stretch
            6 => {
                let e = (i + t.usize(1, 60)).min(len);
                b.drain(i..e);
            }
            _ => b.truncate(i + 1),
        }
    }
}

/// Image data with arbitrary bytes
fn wild_image(t: &mut Tape, o: &mut Vec<u8>) {
    let min = match t.weighted(&[6, 1, 1]) {
        0 => t.usize(2, 8) as u8,
        1 => t.pick(&[0, 1, 9, 10, 11, 12, 13, 16, 31, 32, 255]),
        _ => t.byte(),
    };
    o.push(min);
    let n = match t.weighted(&[3, 3, 1]) {
        0 => 1,
        1 => t.usize(1, 6),
        _ => t.usize(1, 60),
    };
    let m = min.clamp(2, 8) as u32;
    // codes which are mostly valid, or random bytes
    let kind = t.draw(2);
    let mut r = t.bulk();
    let mut w = BitW::new();
    let mut size = (1u32 << m) + 2;
    let mut width = m + 1;
    let mut first = true;
    let mut bytes = vec![];
    if kind == 0 {
        let k = t.usize(1, n * 255);
        bytes = (0..k).map(|_| r.upto(255) as u8).collect();
    } else {
        let bad = t.pick(&[0, 2, 30]);
        let clears = t.pick(&[0, 0, 30, 3]);
        while w.out.len() < n * 100 {
            let c = if clears > 0 && r.below(256) < clears {
                1 << m
            } else if bad > 0 && r.below(256) < bad {
                r.below(1 << width) as u32
            } else if first {
                r.below(1 << m) as u32
            } else if kind == 1 {
                // deep codes
                size.min(4095) - r.below(3) as u32
            } else {
                r.below(size as u64 + 1) as u32
            };
            w.put(c & 0xFFF, width);
            if c == 1 << m {
                size = (1u32 << m) + 2;
                width = m + 1;
                first = true;
                continue;
            }
            if !first && size < 4096 {
                size += 1;
            }
            first = false;
            if size == 1 << width && width < 12 {
                width += 1;
            }
        }
        let pad = r.upto(255) as u8;
        bytes.extend(w.finish(pad));
    }
    for c in split(&bytes, t) {
        o.push(c.len() as u8);
        o.extend(c);
    }
    if !t.chance(1, 20) {
        o.push(0);
    }
}

/// Pieces of GIF in any order
fn soup(t: &mut Tape) -> Vec<u8> {
    let mut o = vec![];
    write_block(&mut o, &RBlock::Header(*b"89a"));
    let side = |t: &mut Tape| -> u16 {
        match t.weighted(&[8, 1, 1]) {
            0 => t.usize(1, 12) as u16,
            1 => 0,
            _ => t.word(),
        }
    };
    let (sw, sh) = (side(t), side(t));
    let mut flags = t.byte();
    if t.flag() {
        flags &= 0xF9;
    }
    write_block(&mut o, &RBlock::Screen { w: sw, h: sh, flags, bg: t.byte(), aspect: t.byte() });
    let n = table_len(flags);
    let c = table(t, n);
    o.extend(c);
    let opts = GifOpts { small: true, ..GifOpts::blocks() };
    let n = t.usize(0, 9);
    for _ in 0..n {
        match t.weighted(&[5, 3, 2, 1, 1, 1]) {
            0 => {
                let full = t.chance(2, 3);
                let (l, tp, w, h) = if full { (0, 0, sw, sh) } else { (side(t) & 7, side(t) & 7, side(t), side(t)) };
                let mut flags = t.byte();
                if t.flag() {
                    flags &= 0x78;
                }
                write_block(&mut o, &RBlock::Desc { l, t: tp, w, h, flags });
                let n = table_len(flags);
                let c = table(t, n);
                o.extend(c);
                if t.chance(1, 12) {
                    continue;
                }
                let px = w as usize * h as usize;
                if px <= 4000 && t.flag() {
                    let k = nsym(t);
                    let n = match t.weighted(&[5, 1, 1]) {
                        0 => px,
                        1 => px.saturating_sub(1),
                        _ => px + t.usize(0, 20),
                    };
                    let p = pixels(t, n, k);
                    let i = lzw_image(t, p);
                    write_block(&mut o, &RBlock::Image(i));
                } else {
                    wild_image(t, &mut o);
                }
            }
            1 => {
                let b = RBlock::Gce { flags: t.byte(), delay: t.word(), tidx: t.byte() };
                write_block(&mut o, &b);
            }
            2 => {
                let b = ext(t, &opts, true, true);
                write_block(&mut o, &b);
            }
            // odd graphic control
            3 => {
                o.extend([0x21, 0xF9]);
                for s in subs(t, true) {
                    o.push(s.len() as u8);
                    o.extend(s);
                }
                o.push(0);
            }
            4 => {
                let k = t.usize(1, 10);
                let p = payload(t, k);
                o.extend(p);
            }
            _ => o.push(0x3B),
        }
    }
    if t.chance(3, 4) {
        o.push(0x3B);
    }
    if t.chance(1, 8) {
        let k = t.usize(1, 300);
        let p = payload(t, k);
        o.extend(p);
    }
    o
}

/// LZW data at the edges of the dictionary: it is filled with random literals
/// up to a certain number of entries, then comes a certain code
pub const EDGES: u64 = 7 * 50 * 8 * 2;

pub struct Edge {
    pub min: u8,
    pub data: Vec<u8>,
    /// Pixels before the certain code
    pub before: usize,
    /// All pixels, unless the code is not valid there
    pub pixels: Option<Vec<u8>>,
}

pub fn edge(i: u64, r: &mut Rng) -> Option<Edge> {
    let (min, i) = (2 + (i % 7) as u32, i / 7);
    let (which, i) = (i % 50, i / 50);
    let (then, cleared) = (i % 8, i / 8 == 1);
    let clear = 1u32 << min;
    // the number of entries: around the end of each code width
    let fill = (1u32 << (min + 1 + which as u32 / 5).min(12)) + (which as u32 % 5);
    let fill = fill.wrapping_sub(3).clamp(clear + 2, 4096);
    let mut w = BitW::new();
    let (mut size, mut width) = (clear + 2, min + 1);
    w.put(clear, width);
    let mut px = vec![];
    let mut lit = |w: &mut BitW, size: &mut u32, width: &mut u32, px: &mut Vec<u8>| {
        let c = r.below(clear as u64) as u32;
        w.put(c, *width);
        if !px.is_empty() && *size < 4096 {
            *size += 1;
            if *size == 1 << *width && *width < 12 {
                *width += 1;
            }
        }
        px.push(c as u8);
    };
    lit(&mut w, &mut size, &mut width, &mut px);
    while size < fill {
        lit(&mut w, &mut size, &mut width, &mut px);
    }
    if then == 7 {
        // a while longer
        for _ in 0..100 {
            lit(&mut w, &mut size, &mut width, &mut px);
        }
    }
    let before = px.len();
    if cleared {
        w.put(clear, width);
        (size, width) = (clear + 2, min + 1);
    }
    // the last entry is for the code to come
    let code = match then {
        0 => size.saturating_sub(1),
        1 | 7 => size,
        2 => size + 1,
        3 => size + 2,
        4 => (1 << width) - 1,
        5 => (1 << width) - 2,
        _ => clear + 2,
    };
    if code >= 1 << width || code == clear || code == clear + 1 {
        return None;
    }
    w.put(code, width);
    if !cleared && size < 4096 {
        size += 1;
        if size == 1 << width && width < 12 {
            width += 1;
        }
    }
    w.put(r.below(clear as u64) as u32, width);
    if !cleared && size < 4096 {
        size += 1;
        if size == 1 << width && width < 12 {
            width += 1;
        }
    }
    w.put(clear + 1, width);
    let data = w.finish(0);
    let pixels = lzw_decode(min as u8, &data, usize::MAX).ok().map(|d| d.pixels);
    Some(Edge { min: min as u8, data, before, pixels })
}

/// Any byte string; most look like GIF
pub fn wild(t: &mut Tape) -> (Vec<u8>, &'static str) {
    if let Some(b) = t.raw.take() {
        return (b, "wild:fuzzer");
    }
    match t.weighted(&[6, 5, 3, 1, 1]) {
        0 => (soup(t), "wild:soup"),
        1 => {
            let o = if t.chance(3, 4) { GifOpts::tiny() } else { GifOpts { area: 2000, ..GifOpts::blocks() } };
            let (mut b, _) = write(&gif(t, &o));
            mutate(t, &mut b);
            (b, "wild:mutated")
        }
        2 => {
            let mut b = soup(t);
            mutate(t, &mut b);
            (b, "wild:mutated soup")
        }
        3 => {
            let mut b = b"GIF89a".to_vec();
            let k = t.usize(0, 400);
            let p = payload(t, k);
            b.extend(p);
            (b, "wild:header+random")
        }
        _ => {
            let k = t.usize(0, 200);
            (payload(t, k), "wild:random")
        }
    }
}

/// Put graphic controls which belong to plain text in front of frames
pub fn add_text_controls(t: &mut Tape, v: &mut Vec<RBlock>) -> bool {
    let mut i = 0;
    let mut any = false;
    let mut gce_at = None;
    while i < v.len() {
        match &v[i] {
            RBlock::Gce { .. } => gce_at = Some(i),
            RBlock::Desc { .. } => {
                let at = gce_at.take().unwrap_or(i);
                if t.chance(1, 3) {
                    any = true;
                    let new = vec![
                        RBlock::Gce { flags: t.byte(), delay: t.word(), tidx: t.byte() },
                        RBlock::PlainText(subs(t, true)),
                    ];
                    v.splice(at..at, new);
                    i += 2;
                }
            }
            _ => {}
        }
        i += 1;
    }
    any
}
