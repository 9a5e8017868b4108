//! Pieces shared by several properties.
use crate::engine::Cx;
use crate::generate;
use crate::refgif::*;
use crate::tape::Tape;
use gift::block::DisposalMethod;
use pix::gray::Gray8;
use pix::rgb::SRgb8;
use pix::{Palette, Raster};

/// The end code of K1: everything up to the last data code is there, what is
/// left are the low bits of the end code, and the bits which are missing would
/// not have filled one more byte
pub fn end_code_cut_short(min: u8, out: &LzwOut) -> bool {
    match out.end {
        LzwEnd::End { .. } => false,
        LzwEnd::Cut { rest, rest_bits, width } => {
            let end = (1u32 << min) + 1;
            rest_bits < width && width - rest_bits < 8 && rest == end & ((1u32 << rest_bits) - 1)
        }
    }
}

/// Check how the LZW data of encoded images end
pub fn check_ends(cx: &mut Cx, p: &Parsed) -> Result<(), String> {
    let mins = p.blocks.iter().filter_map(|b| match b {
        RBlock::Image(i) => Some(i.min),
        _ => None,
    });
    for (min, l) in mins.zip(&p.lzw) {
        match l.end {
            LzwEnd::End { rest_bits } if rest_bits < 8 => cx.class("end code complete"),
            LzwEnd::End { rest_bits } => return Err(format!("{rest_bits} bits after the end code")),
            LzwEnd::Cut { .. } if end_code_cut_short(min, l) => {
                cx.class("end code cut short");
                cx.known("K1");
            }
            LzwEnd::Cut { rest, rest_bits, .. } => {
                return Err(format!("no end code: image data end with {rest_bits} bits {rest:#b}"));
            }
        }
    }
    Ok(())
}

/// A step to encode
#[derive(Clone, Debug)]
pub struct StepM {
    pub w: u32,
    pub h: u32,
    pub px: Vec<u8>,
    pub pal: Vec<[u8; 3]>,
    pub delay: Option<Option<u16>>,
    pub disp: Option<u8>,
    pub trans: Option<Option<u8>>,
    /// Order of the with_ calls; from 3 on after calls with other values
    pub order: u64,
}

pub fn palette(colors: &[[u8; 3]]) -> Palette {
    let mut p = Palette::new(colors.len().max(1));
    // distinct placeholders first: set_entry merges equal colours
    for i in 0..colors.len() {
        let c = SRgb8::new((i >> 16) as u8, (i >> 8) as u8, i as u8);
        assert_eq!(p.set_entry(c), Some(i));
    }
    for (i, c) in colors.iter().enumerate() {
        p.replace_entry(i, SRgb8::new(c[0], c[1], c[2]));
    }
    assert_eq!(p.len(), colors.len());
    p
}

pub fn disposal(n: u8) -> DisposalMethod {
    match n & 7 {
        0 => DisposalMethod::NoAction,
        1 => DisposalMethod::Keep,
        2 => DisposalMethod::Background,
        3 => DisposalMethod::Previous,
        n => DisposalMethod::Reserved(n),
    }
}

impl StepM {
    pub fn to_gift(&self) -> gift::Step {
        let mut r = Raster::<Gray8>::with_clear(self.w, self.h);
        for (p, v) in r.pixels_mut().iter_mut().zip(&self.px) {
            *p = Gray8::new(*v);
        }
        let mut s = gift::Step::with_indexed(r, palette(&self.pal));
        if self.order >= 3 {
            // the last value counts
            if self.delay.is_some() {
                s = s.with_delay_time_cs(Some(!self.delay()));
            }
            if self.disp.is_some() {
                s = s.with_disposal_method(disposal(self.disposal() ^ 5));
            }
            if self.trans.is_some() {
                s = s.with_transparent_color(Some(!self.trans().unwrap_or(3)));
            }
        }
        for i in 0..3 {
            match (i + self.order) % 3 {
                0 => {
                    if let Some(d) = self.delay {
                        s = s.with_delay_time_cs(d);
                    }
                }
                1 => {
                    if let Some(d) = self.disp {
                        s = s.with_disposal_method(disposal(d));
                    }
                }
                _ => {
                    if let Some(t) = self.trans {
                        s = s.with_transparent_color(t);
                    }
                }
            }
        }
        s
    }
    pub fn delay(&self) -> u16 {
        self.delay.flatten().unwrap_or(0)
    }
    pub fn disposal(&self) -> u8 {
        self.disp.unwrap_or(0)
    }
    pub fn trans(&self) -> Option<u8> {
        self.trans.flatten()
    }
    /// Colours which the file can hold
    pub fn colors(&self) -> &[[u8; 3]] {
        &self.pal[..self.pal.len().min(256)]
    }
}

pub fn draw_colors(t: &mut Tape, n: usize) -> Vec<[u8; 3]> {
    if t.chance(1, 6) {
        return generate::regular(t, 3 * n).as_chunks().0.to_vec();
    }
    if n <= 4 {
        return (0..n).map(|_| [t.draw(255) as u8, t.draw(255) as u8, t.draw(255) as u8]).collect();
    }
    let mut r = t.bulk();
    let grey = t.flag();
    (0..n)
        .map(|_| if grey { [r.upto(255) as u8; 3] } else { [r.upto(255) as u8, r.upto(255) as u8, r.upto(255) as u8] })
        .collect()
}

/// Palette sizes around powers of two, up to more than fit
pub fn draw_pal_len(t: &mut Tape) -> usize {
    match t.weighted(&[4, 4, 2]) {
        0 => t.usize(1, 8),
        1 => t.pick(&[2, 1, 3, 4, 5, 15, 16, 17, 32, 33, 63, 64, 65, 128, 129, 200, 255, 256]),
        _ => t.pick(&[256, 257, 258, 300, 511, 512, 513, 600]),
    }
}

pub struct AnimM {
    pub steps: Vec<StepM>,
    pub loops: Option<u16>,
    pub global: Option<Vec<[u8; 3]>>,
}

/// An animation of equally sized steps
pub fn draw_anim(t: &mut Tape, max_steps: usize, max_area: usize) -> AnimM {
    // once in a while very many steps, which are small
    let many = max_steps >= 6 && t.chance(1, 500);
    let n = if many { t.usize(7, 300) } else { t.usize(1, max_steps) };
    let (w, h) = generate::dims(t, if many { 16 } else { max_area });
    let n_pal = draw_pal_len(t);
    let mut pal = draw_colors(t, n_pal);
    let loops = if t.flag() { Some(t.word()) } else { None };
    let global = match t.weighted(&[4, 1, 2]) {
        0 => None,
        1 => Some(pal.clone()),
        _ => {
            let n = draw_pal_len(t);
            Some(draw_colors(t, n))
        }
    };
    let mut steps = vec![];
    for i in 0..n {
        if i > 0 {
            match t.weighted(&[4, 2, 1, 1]) {
                0 => {}
                // one colour changes
                1 if t.flag() => {
                    let last = pal.len().min(256) - 1;
                    let k = t.pick(&[last, 0, last / 2, pal.len() - 1]);
                    pal[k][t.usize(0, 2)] ^= 1 << t.draw(7);
                }
                1 => {
                    let k = t.usize(0, pal.len() - 1);
                    pal[k] = [t.draw(255) as u8, t.draw(255) as u8, t.draw(255) as u8];
                }
                // grows by one, perhaps with the colour tables are padded with
                2 => pal.push(if t.flag() { [0; 3] } else { [9, 8, 7] }),
                _ => {
                    let n = draw_pal_len(t);
                    pal = draw_colors(t, n);
                }
            }
        }
        if t.chance(1, 8)
            && let Some(g) = &global
        {
            pal = g.clone();
        }
        let top = pal.len().min(256);
        let n_sym = if t.flag() { top } else { t.usize(1, top) };
        let px = generate::pixels(t, w as usize * h as usize, n_sym);
        steps.push(StepM {
            w: w as u32,
            h: h as u32,
            px,
            pal: pal.clone(),
            delay: if t.flag() { Some(if t.chance(3, 4) { Some(t.word()) } else { None }) } else { None },
            disp: if t.flag() { Some(t.draw(7) as u8) } else { None },
            trans: if t.flag() {
                Some(if t.chance(3, 4) { Some(if t.flag() { t.draw(n_sym as u64 - 1) as u8 } else { t.byte() }) } else { None })
            } else {
                None
            },
            order: t.draw(5),
        });
    }
    AnimM { steps, loops, global }
}
