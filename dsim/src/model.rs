//! Per-pixel model of the display: what clear and paint are supposed to do.

use crate::reffont::{F, latin_of, Ref, Tok};

pub const W: u64 = 336;
pub const H: u64 = 536;
pub const WPL: usize = 11;
pub const N: usize = WPL * H as usize;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Rect {
    pub x0: u64,
    pub y0: u64,
    pub x1: u64,
    pub y1: u64,
}
impl Rect {
    /// Two opposite corners in any order
    pub fn corners(r: [u64; 4]) -> Rect {
        Rect { x0: r[0].min(r[2]), y0: r[1].min(r[3]), x1: r[0].max(r[2]), y1: r[1].max(r[3]) }
    }
    pub fn literal(r: [u64; 4]) -> Rect {
        Rect { x0: r[0], y0: r[1], x1: r[2], y1: r[3] }
    }
    /// On screen, and not empty
    pub fn ok(&self) -> bool {
        self.x1 <= W && self.y1 <= H && self.x0 < self.x1 && self.y0 < self.y1
    }
    pub fn intersects(&self, o: &Rect) -> bool {
        self.x0 < o.x1 && o.x0 < self.x1 && self.y0 < o.y1 && o.y0 < self.y1
    }
    /// Mask of the rect's pixels in word w of line y; rect must be ok()
    pub fn word_mask(&self, y: u64, w: usize) -> u32 {
        if y < self.y0 || y >= self.y1 {
            return 0;
        }
        let base = w as u64 * 32;
        let lo = self.x0.max(base);
        let hi = self.x1.min(base + 32);
        if lo >= hi {
            return 0;
        }
        (((1u64 << (hi - base)) - 1) & !((1u64 << (lo - base)) - 1)) as u32
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Cur {
    pub x: u64,
    pub y: u64,
    pub lh: u64,
}

/// Rare conditions reached, counted by the model
#[derive(Clone, Default)]
pub struct Probes(pub [u64; PROBE_NAMES.len()]);
pub const PROBE_NAMES: [&str; 19] = [
    "glyphs", "newlines", "wraps", "narrow_clip_right_edge", "top_clipped", "bottom_clipped",
    "entirely_below", "replacement_char", "multi_codepoint_cluster", "cluster_of_5_or_more",
    "spans_two_words", "touches_last_visible_column", "cursor_left_of_clip", "cursor_right_of_clip",
    "pieces_joined", "stream_glyphs_checked",
    "clusters_respelled",
    "basic_blocks_timed", "long_texts_timed",
];
pub const JOINS: usize = 14;
pub const STREAM_GLYPHS: usize = 15;
pub const RESPELLED: usize = 16;
pub const BLOCKS: usize = 17;
pub const LONG_TIMED: usize = 18;
impl Probes {
    fn hit(&mut self, i: usize) {
        self.0[i] += 1;
    }
    pub fn merge(&mut self, o: &Probes) {
        for i in 0..self.0.len() {
            self.0[i] += o.0[i];
        }
    }
}

pub fn clear(fb: &mut [u32], r: Rect) {
    if !r.ok() {
        return;
    }
    for y in r.y0..r.y1 {
        for x in r.x0..r.x1 {
            fb[y as usize * WPL + (x / 32) as usize] |= 1 << (x % 32);
        }
    }
}

fn newline(r: Rect, c: &mut Cur, least: u64) {
    c.x = r.x0;
    c.y = c.y.saturating_add(c.lh.max(least)).saturating_add(1);
    c.lh = 0;
}

/// Paint into fb, which may be left alone when r is not ok()
pub fn paint(rf: &Ref, fb: &mut [u32], r: Rect, c: &mut Cur, style: u64, text: &[char], p: &mut Probes) {
    if !r.ok() {
        return;
    }
    let latin = latin_of(style);
    let small = rf.font(F::Small).height as u64;
    let mut i = 0;
    while i < text.len() {
        let t = rf.tok(latin, &text[i..]);
        let (font, glyph) = match t {
            Tok::Newline => {
                p.hit(1);
                newline(r, c, small);
                i += 1;
                continue;
            }
            Tok::Glyph { font, glyph, .. } => (font, glyph),
        };
        let g = &rf.font(font).glyphs[glyph];
        p.hit(0);
        if t.chars() > 1 {
            p.hit(8);
        }
        if t.chars() >= 5 {
            p.hit(9);
        }
        if font == latin && t.chars() == 1 && text[i] != '\u{FFFD}' && !rf.font(latin).map.contains_key(&text[i..i + 1]) {
            p.hit(7);
        }
        i += t.chars();
        if c.x < r.x0 {
            p.hit(12);
            c.x = r.x0;
        }
        if c.x >= r.x1 {
            p.hit(13);
        }
        // 1 px left of the glyph and 2 px right of it must stay inside
        if c.x.saturating_add(1 + g.w as u64 + 2) >= r.x1 {
            p.hit(2);
            newline(r, c, small);
        }
        let x0 = c.x + 1;
        if x0 + g.w as u64 > r.x1 {
            p.hit(3);
        }
        let y0 = c.y.saturating_add(g.y as u64);
        if y0 >= r.y1 {
            p.hit(6);
        } else {
            if y0 < r.y0 {
                p.hit(4);
            }
            if y0 + g.h as u64 > r.y1 {
                p.hit(5);
            }
            if x0 / 32 != (x0 + g.w as u64 - 1) / 32 {
                p.hit(10);
            }
            for (dy, row) in g.rows.iter().enumerate() {
                let y = y0 + dy as u64;
                if y < r.y0 || y >= r.y1 {
                    continue;
                }
                for dx in 0..g.w as u64 {
                    let x = x0 + dx;
                    if row >> dx & 1 == 1 && x < r.x1 {
                        fb[y as usize * WPL + (x / 32) as usize] ^= 1 << (x % 32);
                        if x == W - 1 {
                            p.hit(11);
                        }
                    }
                }
            }
        }
        c.x += g.w as u64 + 3;
        c.lh = c.lh.max(rf.font(font).height as u64);
    }
}
