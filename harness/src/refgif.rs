//! Reference GIF89a: model, writer, strict parser, LZW and compositor.
//! Written from the specification; shares no code with gift.
use crate::tape::Tape;
use std::collections::HashMap;

/// One block of a file
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum RBlock {
    Header([u8; 3]),
    Screen { w: u16, h: u16, flags: u8, bg: u8, aspect: u8 },
    Gct(Vec<u8>),
    PlainText(Vec<Vec<u8>>),
    Gce { flags: u8, delay: u16, tidx: u8 },
    Comment(Vec<Vec<u8>>),
    App(Vec<Vec<u8>>),
    Unknown(u8, Vec<Vec<u8>>),
    Desc { l: u16, t: u16, w: u16, h: u16, flags: u8 },
    Lct(Vec<u8>),
    Image(RImage),
    Trailer,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RImage {
    pub pixels: Vec<u8>,
    pub min: u8,
    /// LZW data as split into sub-blocks
    pub chunks: Vec<Vec<u8>>,
}

fn put16(o: &mut Vec<u8>, v: u16) {
    o.push((v & 0xFF) as u8);
    o.push((v >> 8) as u8);
}

fn put_subs(o: &mut Vec<u8>, subs: &[Vec<u8>]) {
    for s in subs {
        assert!(!s.is_empty() && s.len() <= 255);
        o.push(s.len() as u8);
        o.extend_from_slice(s);
    }
    o.push(0);
}

pub fn write_block(o: &mut Vec<u8>, b: &RBlock) {
    match b {
        RBlock::Header(v) => {
            o.extend_from_slice(b"GIF");
            o.extend_from_slice(v);
        }
        RBlock::Screen { w, h, flags, bg, aspect } => {
            put16(o, *w);
            put16(o, *h);
            o.extend_from_slice(&[*flags, *bg, *aspect]);
        }
        RBlock::Gct(c) | RBlock::Lct(c) => o.extend_from_slice(c),
        RBlock::PlainText(s) => {
            o.extend_from_slice(&[0x21, 0x01]);
            put_subs(o, s);
        }
        RBlock::Gce { flags, delay, tidx } => {
            o.extend_from_slice(&[0x21, 0xF9, 4, *flags]);
            put16(o, *delay);
            o.extend_from_slice(&[*tidx, 0]);
        }
        RBlock::Comment(s) => {
            o.extend_from_slice(&[0x21, 0xFE]);
            put_subs(o, s);
        }
        RBlock::App(s) => {
            o.extend_from_slice(&[0x21, 0xFF]);
            put_subs(o, s);
        }
        RBlock::Unknown(id, s) => {
            o.extend_from_slice(&[0x21, *id]);
            put_subs(o, s);
        }
        RBlock::Desc { l, t, w, h, flags } => {
            o.push(0x2C);
            put16(o, *l);
            put16(o, *t);
            put16(o, *w);
            put16(o, *h);
            o.push(*flags);
        }
        RBlock::Image(i) => {
            o.push(i.min);
            put_subs(o, &i.chunks);
        }
        RBlock::Trailer => o.push(0x3B),
    }
}

/// Write a file; also gives the end offset of each block
pub fn write(blocks: &[RBlock]) -> (Vec<u8>, Vec<usize>) {
    let mut o = vec![];
    let mut ends = vec![];
    for b in blocks {
        write_block(&mut o, b);
        ends.push(o.len());
    }
    (o, ends)
}

pub fn table_len(flags: u8) -> usize {
    if flags & 0x80 != 0 { 1 << ((flags & 7) + 1) } else { 0 }
}

/// Loop count of an application block
pub fn loop_count(subs: &[Vec<u8>]) -> Option<u16> {
    match subs {
        [id, data]
            if (id == b"NETSCAPE2.0" || id == b"ANIMEXTS1.0") && data.len() == 3 && data[0] == 1 =>
        {
            Some(data[1] as u16 + 256 * data[2] as u16)
        }
        _ => None,
    }
}

// ------------------------------------------------------------------ LZW

/// How an LZW stream ends
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LzwEnd {
    /// With an end-of-information code, in this many bits after which follow
    /// this many left-over bits
    End { rest_bits: usize },
    /// Bits run out before an end code; the left-over bits, fewer than a code
    Cut { width: u32, rest: u32, rest_bits: u32 },
}

#[derive(Debug)]
pub struct LzwOut {
    pub pixels: Vec<u8>,
    pub end: LzwEnd,
    /// Number of codes before the end code, with clear codes
    pub codes: usize,
    pub clears: usize,
    /// First code was a clear code
    pub clear_first: bool,
    /// Largest number of codes the table was used while full
    pub full_run: usize,
    /// KwKwK codes
    pub kwkwk: usize,
    /// Data codes by width
    pub max_width: u32,
}

/// Strict LZW decoder; stops at the end code or after `limit` pixels
pub fn lzw_decode(min: u8, data: &[u8], limit: usize) -> Result<LzwOut, String> {
    if !(2..=8).contains(&min) {
        return Err(format!("minimum code size {min}"));
    }
    let clear = 1usize << min;
    let end = clear + 1;
    // prefix, last byte, first byte, length
    let mut tab: Vec<(u16, u8, u8, u32)> = Vec::with_capacity(4096);
    let reset = |tab: &mut Vec<(u16, u8, u8, u32)>| {
        tab.clear();
        for i in 0..clear + 2 {
            tab.push((0xFFFF, i as u8, i as u8, 1));
        }
    };
    reset(&mut tab);
    let mut width = min as u32 + 1;
    let mut out = LzwOut {
        pixels: vec![],
        end: LzwEnd::Cut { width, rest: 0, rest_bits: 0 },
        codes: 0,
        clears: 0,
        clear_first: false,
        full_run: 0,
        kwkwk: 0,
        max_width: 0,
    };
    let mut prev: Option<usize> = None;
    let mut full = 0;
    let total_bits = data.len() * 8;
    let mut bit = 0usize;
    loop {
        if bit + width as usize > total_bits {
            let mut rest = 0u32;
            let rest_bits = (total_bits - bit) as u32;
            for i in 0..rest_bits as usize {
                let b = (data[(bit + i) / 8] >> ((bit + i) % 8)) & 1;
                rest |= (b as u32) << i;
            }
            out.end = LzwEnd::Cut { width, rest, rest_bits };
            return Ok(out);
        }
        let byte = bit / 8;
        let mut word = 0u32;
        for i in 0..3 {
            word |= (data.get(byte + i).copied().unwrap_or(0) as u32) << (8 * i);
        }
        let code = ((word >> (bit % 8)) & ((1 << width) - 1)) as usize;
        bit += width as usize;
        if code == end {
            out.end = LzwEnd::End { rest_bits: total_bits - bit };
            return Ok(out);
        }
        out.codes += 1;
        if code == clear {
            if out.codes == 1 {
                out.clear_first = true;
            }
            out.clears += 1;
            reset(&mut tab);
            width = min as u32 + 1;
            prev = None;
            full = 0;
            continue;
        }
        out.max_width = out.max_width.max(width);
        let start = out.pixels.len();
        match prev {
            None => {
                if code >= clear {
                    return Err(format!("first code {code} is not a literal"));
                }
                out.pixels.push(code as u8);
            }
            Some(p) => {
                let kwk = code == tab.len() && tab.len() < 4096;
                if code > tab.len() || (code == tab.len() && !kwk) {
                    return Err(format!("code {code} beyond table of {}", tab.len()));
                }
                let src = if kwk { p } else { code };
                let mut c = src;
                loop {
                    let (pre, b, _, _) = tab[c];
                    out.pixels.push(b);
                    if pre == 0xFFFF {
                        break;
                    }
                    c = pre as usize;
                }
                out.pixels[start..].reverse();
                let first = tab[src].2;
                if kwk {
                    out.pixels.push(first);
                    out.kwkwk += 1;
                }
                if tab.len() < 4096 {
                    let e = (p as u16, first, tab[p].2, tab[p].3 + 1);
                    tab.push(e);
                } else {
                    full += 1;
                    out.full_run = out.full_run.max(full);
                }
            }
        }
        if tab.len() == 1 << width && width < 12 {
            width += 1;
        }
        prev = Some(code);
        if out.pixels.len() >= limit {
            out.pixels.truncate(limit);
            out.end = LzwEnd::Cut { width, rest: 0, rest_bits: 0 };
            return Ok(out);
        }
    }
}

pub struct BitW {
    pub out: Vec<u8>,
    acc: u64,
    n: u32,
}

impl BitW {
    pub fn new() -> Self {
        BitW { out: vec![], acc: 0, n: 0 }
    }
    pub fn put(&mut self, code: u32, width: u32) {
        self.acc |= (code as u64) << self.n;
        self.n += width;
        while self.n >= 8 {
            self.out.push(self.acc as u8);
            self.acc >>= 8;
            self.n -= 8;
        }
    }
    /// Pad the last byte with the given bits
    pub fn finish(mut self, pad: u8) -> Vec<u8> {
        if self.n > 0 {
            self.acc |= (pad as u64) << self.n;
            self.out.push(self.acc as u8);
        }
        self.out
    }
}

impl Default for BitW {
    fn default() -> Self {
        Self::new()
    }
}

/// What an LZW encoder may choose
#[derive(Clone, Debug)]
pub struct LzwPlan {
    pub min: u8,
    /// Omit the initial clear code
    pub no_first_clear: bool,
    /// Clear when full: after this many more codes (None: never)
    pub full_delay: Option<usize>,
    /// Probability (x/256) of a clear before a code
    pub clear_p: u64,
    /// Probability (x/256) of using a shorter match than possible
    pub short_p: u64,
    /// Only single-pixel codes
    pub literal: bool,
    /// Replace an existing dictionary path by its newer duplicate
    pub newest: bool,
    /// Bits in the last byte after the end code
    pub pad: u8,
    /// Omit the end code
    pub no_end: bool,
}

impl LzwPlan {
    pub fn greedy(min: u8) -> Self {
        LzwPlan {
            min,
            no_first_clear: false,
            full_delay: Some(0),
            clear_p: 0,
            short_p: 0,
            literal: false,
            newest: false,
            pad: 0,
            no_end: false,
        }
    }
    pub fn draw(t: &mut Tape, pixels: &[u8]) -> Self {
        let max = pixels.iter().copied().max().unwrap_or(0);
        let need = (8 - max.leading_zeros() as u8).max(2);
        let min = if t.chance(1, 3) { t.range(need as u64, 8) as u8 } else { need };
        let kind = t.weighted(&[4, 2, 2, 2, 2, 2]);
        let mut p = LzwPlan::greedy(min);
        match kind {
            0 => {}
            1 => p.full_delay = None,
            2 => p.full_delay = Some(t.pick(&[1, 2, 3, 10, 255, 1000])),
            3 => {
                p.short_p = t.pick(&[1, 16, 64, 128, 200]);
                p.full_delay = t.pick(&[None, Some(0), Some(1), Some(50)]);
            }
            4 => {
                p.clear_p = t.pick(&[1, 4, 16, 64, 200]);
                p.full_delay = t.pick(&[None, Some(0)]);
            }
            _ => {
                p.literal = true;
                p.full_delay = t.pick(&[None, None, Some(0), Some(7)]);
            }
        }
        p.newest = t.flag();
        p.pad = if t.chance(1, 2) { 0xFF } else { 0 };
        p.no_first_clear = t.chance(1, 10);
        p
    }
}

/// Compress pixels to LZW data; also gives the number of codes (with clears)
pub fn lzw_encode(pixels: &[u8], plan: &LzwPlan, rng: &mut crate::tape::Rng) -> (Vec<u8>, usize) {
    let clear = 1u32 << plan.min;
    let end = clear + 1;
    let mut trie: HashMap<(u16, u8), u16> = HashMap::new();
    let mut w = BitW::new();
    let mut width = plan.min as u32 + 1;
    // what the decoder's table will hold
    let mut dec_size = clear as usize + 2;
    let mut enc_size = dec_size;
    let mut first = true;
    let mut n_codes = 0;
    let mut full_for = 0;
    if !plan.no_first_clear {
        w.put(clear, width);
        n_codes += 1;
    }
    let mut i = 0;
    while i < pixels.len() {
        let full_clear = enc_size >= 4096 && plan.full_delay.is_some_and(|d| full_for >= d);
        if full_clear || (plan.clear_p > 0 && rng.below(256) < plan.clear_p) {
            w.put(clear, width);
            n_codes += 1;
            trie.clear();
            width = plan.min as u32 + 1;
            dec_size = clear as usize + 2;
            enc_size = dec_size;
            first = true;
            full_for = 0;
        }
        let mut code = pixels[i] as u16;
        let mut len = 1;
        let mut path = vec![code];
        if !plan.literal {
            while i + len < pixels.len() {
                match trie.get(&(code, pixels[i + len])) {
                    Some(c) => {
                        code = *c;
                        len += 1;
                        if plan.short_p > 0 {
                            path.push(code);
                        }
                    }
                    None => break,
                }
            }
        }
        if plan.short_p > 0 && len > 1 && rng.below(256) < plan.short_p {
            len = 1 + rng.below(len as u64) as usize;
            code = path[len - 1];
        }
        w.put(code as u32, width);
        n_codes += 1;
        if !first {
            if dec_size < 4096 {
                dec_size += 1;
            } else {
                full_for += 1;
            }
        }
        first = false;
        // the widths follow the decoder's table
        if dec_size == 1 << width && width < 12 {
            width += 1;
        }
        i += len;
        if i < pixels.len() && enc_size < 4096 {
            let k = (code, pixels[i]);
            let e = enc_size as u16;
            if plan.newest {
                trie.insert(k, e);
            } else {
                trie.entry(k).or_insert(e);
            }
            enc_size += 1;
        }
    }
    if !plan.no_end {
        w.put(end, width);
    }
    (w.finish(plan.pad), n_codes)
}

/// Split LZW data into sub-blocks
pub fn split(data: &[u8], t: &mut Tape) -> Vec<Vec<u8>> {
    let kind = t.weighted(&[4, 2, 2, 1]);
    let mut rng = if kind == 0 { crate::tape::Rng(0) } else { t.bulk() };
    let fixed = if kind == 2 { t.usize(1, 255) } else { 255 };
    let mut out = vec![];
    let mut i = 0;
    while i < data.len() {
        let n = match kind {
            0 => 255,
            1 => 1 + rng.below(255) as usize,
            2 => fixed,
            _ => 1,
        };
        let e = (i + n).min(data.len());
        out.push(data[i..e].to_vec());
        i = e;
    }
    out
}

pub fn plain_split(data: &[u8]) -> Vec<Vec<u8>> {
    data.chunks(255).map(|c| c.to_vec()).collect()
}

/// An image compressed in the plain way
pub fn simple_image(pixels: &[u8]) -> RImage {
    let max = pixels.iter().copied().max().unwrap_or(0);
    let min = (8 - max.leading_zeros() as u8).max(2);
    let (data, _) = lzw_encode(pixels, &LzwPlan::greedy(min), &mut crate::tape::Rng(0));
    RImage { pixels: pixels.to_vec(), min, chunks: plain_split(&data) }
}

// --------------------------------------------------------------- parser

/// What a strict reader finds in a file
pub struct Parsed {
    pub blocks: Vec<RBlock>,
    pub ends: Vec<usize>,
    /// LZW details, one per image
    pub lzw: Vec<LzwOut>,
}

struct Rd<'a> {
    b: &'a [u8],
    pos: usize,
}

impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.pos + n > self.b.len() {
            return Err(format!("end of data at {} (wanted {n} bytes at {})", self.b.len(), self.pos));
        }
        let s = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }
    fn u8(&mut self) -> Result<u8, String> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> Result<u16, String> {
        let s = self.take(2)?;
        Ok(s[0] as u16 + 256 * s[1] as u16)
    }
    fn subs(&mut self) -> Result<Vec<Vec<u8>>, String> {
        let mut v = vec![];
        loop {
            let n = self.u8()? as usize;
            if n == 0 {
                return Ok(v);
            }
            v.push(self.take(n)?.to_vec());
        }
    }
}

/// Kinds and ends of the blocks, without a look at their contents: H header,
/// S screen, G and L tables, X extension, D descriptor, I image data, T trailer
pub fn scan(b: &[u8]) -> Result<Vec<(char, usize)>, String> {
    let mut r = Rd { b, pos: 0 };
    r.take(6)?;
    let mut v = vec![('H', r.pos)];
    let flags = r.take(7)?[4];
    v.push(('S', r.pos));
    if flags & 0x80 != 0 {
        r.take(3 * table_len(flags))?;
        v.push(('G', r.pos));
    }
    while r.pos < b.len() {
        match r.u8()? {
            0x21 => {
                r.u8()?;
                r.subs()?;
                v.push(('X', r.pos));
            }
            0x2C => {
                let flags = r.take(9)?[8];
                v.push(('D', r.pos));
                if flags & 0x80 != 0 {
                    r.take(3 * table_len(flags))?;
                    v.push(('L', r.pos));
                }
                r.u8()?;
                r.subs()?;
                v.push(('I', r.pos));
            }
            0x3B => v.push(('T', r.pos)),
            x => return Err(format!("unknown block {x:#04x} before {}", r.pos)),
        }
    }
    Ok(v)
}

/// Parse a whole file strictly; the trailer must be its last byte
pub fn parse(b: &[u8]) -> Result<Parsed, String> {
    let mut r = Rd { b, pos: 0 };
    let mut p = Parsed { blocks: vec![], ends: vec![], lzw: vec![] };
    let push = |p: &mut Parsed, b: RBlock, pos: usize| {
        p.blocks.push(b);
        p.ends.push(pos);
    };
    if r.take(3)? != b"GIF" {
        return Err("bad signature".into());
    }
    let v: [u8; 3] = r.take(3)?.try_into().unwrap();
    if &v != b"87a" && &v != b"89a" {
        return Err(format!("bad version {v:?}"));
    }
    push(&mut p, RBlock::Header(v), r.pos);
    let (w, h, flags, bg, aspect) = (r.u16()?, r.u16()?, r.u8()?, r.u8()?, r.u8()?);
    push(&mut p, RBlock::Screen { w, h, flags, bg, aspect }, r.pos);
    let n = table_len(flags);
    if n > 0 {
        let c = r.take(3 * n)?.to_vec();
        push(&mut p, RBlock::Gct(c), r.pos);
    }
    loop {
        let at = r.pos;
        match r.u8()? {
            0x21 => {
                let label = r.u8()?;
                let b = match label {
                    0xF9 => {
                        let s = r.subs()?;
                        if s.len() != 1 || s[0].len() != 4 {
                            return Err(format!("graphic control with sub-blocks {s:?} at {at}"));
                        }
                        let s = &s[0];
                        RBlock::Gce { flags: s[0], delay: s[1] as u16 + 256 * s[2] as u16, tidx: s[3] }
                    }
                    0x01 => RBlock::PlainText(r.subs()?),
                    0xFE => RBlock::Comment(r.subs()?),
                    0xFF => RBlock::App(r.subs()?),
                    x => RBlock::Unknown(x, r.subs()?),
                };
                push(&mut p, b, r.pos);
            }
            0x2C => {
                let (l, t, w, h, flags) = (r.u16()?, r.u16()?, r.u16()?, r.u16()?, r.u8()?);
                push(&mut p, RBlock::Desc { l, t, w, h, flags }, r.pos);
                let n = table_len(flags);
                if n > 0 {
                    let c = r.take(3 * n)?.to_vec();
                    push(&mut p, RBlock::Lct(c), r.pos);
                }
                let min = r.u8()?;
                let chunks = r.subs()?;
                let data: Vec<u8> = chunks.concat();
                let out = lzw_decode(min, &data, usize::MAX).map_err(|e| format!("image at {at}: {e}"))?;
                let want = w as usize * h as usize;
                if out.pixels.len() != want {
                    return Err(format!("image at {at}: {} pixels for {w}x{h}", out.pixels.len()));
                }
                push(&mut p, RBlock::Image(RImage { pixels: out.pixels.clone(), min, chunks }), r.pos);
                p.lzw.push(out);
            }
            0x3B => {
                push(&mut p, RBlock::Trailer, r.pos);
                if r.pos != b.len() {
                    return Err(format!("{} bytes after the trailer", b.len() - r.pos));
                }
                return Ok(p);
            }
            x => return Err(format!("unknown block {x:#04x} at {at}")),
        }
    }
}

// ----------------------------------------------------------- compositor

/// A frame of the model
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RFrame {
    pub gce: Option<(u8, u16, u8)>,
    pub l: u16,
    pub t: u16,
    pub w: u16,
    pub h: u16,
    pub flags: u8,
    pub lct: Option<Vec<u8>>,
    pub pixels: Vec<u8>,
}

impl RFrame {
    pub fn trans(&self) -> Option<u8> {
        self.gce.and_then(|g| if g.0 & 1 != 0 { Some(g.2) } else { None })
    }
    pub fn delay(&self) -> u16 {
        self.gce.map_or(0, |g| g.1)
    }
    pub fn disposal(&self) -> u8 {
        self.gce.map_or(0, |g| (g.0 >> 2) & 7)
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct RPreamble {
    pub version: [u8; 3],
    pub screen: (u16, u16, u8, u8, u8),
    pub gct: Option<Vec<u8>>,
    pub looping: Option<(Vec<Vec<u8>>, u16)>,
    pub comments: Vec<Vec<Vec<u8>>>,
}

/// Group blocks to frames the way GIF89a says.  `first` is the index of the
/// first block which belongs to a frame.
pub fn group(blocks: &[RBlock]) -> (RPreamble, Vec<RFrame>) {
    let mut pre = RPreamble::default();
    let mut frames: Vec<RFrame> = vec![];
    let mut gce = None;
    let mut desc = None;
    let mut lct = None;
    let mut in_frames = false;
    for b in blocks {
        match b {
            RBlock::Header(v) => pre.version = *v,
            RBlock::Screen { w, h, flags, bg, aspect } => pre.screen = (*w, *h, *flags, *bg, *aspect),
            RBlock::Gct(c) => pre.gct = Some(c.clone()),
            RBlock::Comment(s) if !in_frames => pre.comments.push(s.clone()),
            RBlock::App(s) if !in_frames => {
                if let Some(n) = loop_count(s) {
                    pre.looping = Some((s.clone(), n));
                }
            }
            RBlock::Gce { flags, delay, tidx } => {
                in_frames = true;
                gce = Some((*flags, *delay, *tidx));
            }
            RBlock::PlainText(_) => gce = None,
            RBlock::Desc { l, t, w, h, flags } => {
                in_frames = true;
                desc = Some((*l, *t, *w, *h, *flags));
            }
            RBlock::Lct(c) => lct = Some(c.clone()),
            RBlock::Image(i) => {
                let (l, t, w, h, flags) = desc.take().expect("image without descriptor");
                frames.push(RFrame { gce: gce.take(), l, t, w, h, flags, lct: lct.take(), pixels: i.pixels.clone() });
            }
            _ => {}
        }
    }
    (pre, frames)
}

/// Display order of an interlaced image's rows: which row of the picture the
/// n-th stored row is
pub fn interlace_rows(h: usize) -> Vec<usize> {
    let mut v = vec![];
    for (start, step) in [(0, 8), (4, 8), (2, 4), (1, 2)] {
        let mut y = start;
        while y < h {
            v.push(y);
            y += step;
        }
    }
    v
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RStep {
    pub w: u16,
    pub h: u16,
    pub rgba: Vec<u8>,
    pub delay: u16,
    pub trans: Option<u8>,
}

/// Error a step decoder must give instead of a step
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum StepErr {
    Outside,
    NoTable,
    BadIndex,
}

/// Compose the steps; ends early at the first impossible frame
pub fn compose(pre: &RPreamble, frames: &[RFrame]) -> (Vec<RStep>, Option<StepErr>) {
    let (sw, sh) = (pre.screen.0 as usize, pre.screen.1 as usize);
    let mut canvas = vec![0u8; sw * sh * 4];
    let mut out = vec![];
    for f in frames {
        let (l, t, w, h) = (f.l as usize, f.t as usize, f.w as usize, f.h as usize);
        if w == 0 || h == 0 || l + w > sw || t + h > sh {
            return (out, Some(StepErr::Outside));
        }
        let Some(tab) = f.lct.as_ref().or(pre.gct.as_ref()) else {
            return (out, Some(StepErr::NoTable));
        };
        let before = canvas.clone();
        let rows: Vec<usize> = if f.flags & 0x40 != 0 { interlace_rows(h) } else { (0..h).collect() };
        for (n, y) in rows.iter().enumerate() {
            for x in 0..w {
                let p = f.pixels[n * w + x];
                let o = ((t + y) * sw + l + x) * 4;
                if 3 * p as usize + 3 > tab.len() {
                    return (out, Some(StepErr::BadIndex));
                }
                if f.trans() == Some(p) {
                    continue;
                }
                canvas[o..o + 3].copy_from_slice(&tab[3 * p as usize..3 * p as usize + 3]);
                canvas[o + 3] = 255;
            }
        }
        out.push(RStep { w: sw as u16, h: sh as u16, rgba: canvas.clone(), delay: f.delay(), trans: f.trans() });
        match f.disposal() {
            2 => {
                for y in t..t + h {
                    for x in l..l + w {
                        let o = (y * sw + x) * 4;
                        canvas[o..o + 4].fill(0);
                    }
                }
            }
            3 => canvas = before,
            _ => {}
        }
    }
    (out, None)
}
