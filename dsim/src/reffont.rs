//! Reference fonts, read from ref/fonts.bin (made from the sprite sheets and
//! index files by ref/extract.py, not from the generated rust fonts).

use std::collections::{HashMap, HashSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum F {
    Emoji = 0,
    Hanzi = 1,
    Bold = 2,
    Regular = 3,
    Small = 4,
}

pub struct Glyph {
    pub w: usize,
    pub h: usize,
    pub y: usize,
    pub rows: Vec<u32>,
}

pub struct Block {
    pub lo: u32,
    pub hi: u32,
    pub lens: Vec<usize>, // descending
    pub hashes: HashSet<u32>,
}

pub struct Font {
    pub height: usize,
    pub seed: u32,
    pub blocks: Vec<Block>,
    pub glyphs: Vec<Glyph>,
    pub clusters: Vec<(Vec<char>, usize)>, // sorted
    pub map: HashMap<Vec<char>, usize>,
}

pub struct Ref {
    pub fonts: Vec<Font>,
}

/// One step of the reference parse of a text
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tok {
    Newline,
    Glyph { font: F, glyph: usize, chars: usize },
}
impl Tok {
    pub fn chars(&self) -> usize {
        match self {
            Tok::Newline => 1,
            Tok::Glyph { chars, .. } => *chars,
        }
    }
}

/// The 32-bit hash the fonts are indexed with (independent of the library's)
pub fn murmur3(chars: &[char], seed: u32) -> u32 {
    let mut h = seed;
    let mut len = 0u32;
    for c in chars {
        len += c.len_utf8() as u32;
        let k = (*c as u32).wrapping_mul(0xcc9e2d51).rotate_left(15).wrapping_mul(0x1b873593);
        h = (h ^ k).rotate_left(13).wrapping_mul(5).wrapping_add(0xe6546b64);
    }
    h ^= len;
    h = (h ^ (h >> 16)).wrapping_mul(0x85ebca6b);
    h = (h ^ (h >> 13)).wrapping_mul(0xc2b2ae35);
    h ^ (h >> 16)
}

struct Rd<'a>(&'a [u8], usize);
impl<'a> Rd<'a> {
    fn n(&mut self, n: usize) -> u32 {
        let mut v = 0;
        for i in 0..n {
            v |= (self.0[self.1 + i] as u32) << (8 * i);
        }
        self.1 += n;
        v
    }
}

impl Ref {
    pub fn parse(data: &[u8]) -> Ref {
        assert!(&data[..4] == b"REF1", "not a reference font file");
        let mut r = Rd(data, 4);
        let mut fonts = vec![];
        for _ in 0..5 {
            let height = r.n(1) as usize;
            let seed = r.n(4);
            let nb = r.n(2);
            let mut blocks: Vec<Block> = (0..nb)
                .map(|_| Block { lo: r.n(4), hi: r.n(4), lens: vec![], hashes: HashSet::new() })
                .collect();
            let ng = r.n(4);
            let mut glyphs = vec![];
            for _ in 0..ng {
                let (w, h, y) = (r.n(1) as usize, r.n(1) as usize, r.n(1) as usize);
                let rows = (0..h).map(|_| r.n(4)).collect();
                glyphs.push(Glyph { w, h, y, rows });
            }
            let nc = r.n(4);
            let mut clusters = vec![];
            for _ in 0..nc {
                let n = r.n(1);
                let c: Vec<char> = (0..n).map(|_| char::from_u32(r.n(4)).unwrap()).collect();
                let g = r.n(4) as usize;
                let b = blocks.iter_mut().find(|b| b.lo <= c[0] as u32 && c[0] as u32 <= b.hi).unwrap();
                if !b.lens.contains(&c.len()) {
                    b.lens.push(c.len());
                }
                b.hashes.insert(murmur3(&c, seed));
                clusters.push((c, g));
            }
            for b in &mut blocks {
                b.lens.sort_by(|a, b| b.cmp(a));
            }
            let map = clusters.iter().cloned().collect();
            fonts.push(Font { height, seed, blocks, glyphs, clusters, map });
        }
        Ref { fonts }
    }

    pub fn font(&self, f: F) -> &Font {
        &self.fonts[f as usize]
    }

    /// Longest cluster of the font at the start of s: (glyph, chars)
    fn find(&self, f: F, s: &[char]) -> Option<(usize, usize)> {
        let font = self.font(f);
        let c = s[0] as u32;
        let b = font.blocks.iter().find(|b| b.lo <= c && c <= b.hi)?;
        for &n in &b.lens {
            if n <= s.len() {
                if let Some(g) = font.map.get(&s[..n]) {
                    return Some((*g, n));
                }
            }
        }
        None
    }

    /// Does a hash-only lookup at the start of s find something else than find()?
    pub fn collides(&self, f: F, s: &[char]) -> bool {
        let font = self.font(f);
        let c = s[0] as u32;
        let b = match font.blocks.iter().find(|b| b.lo <= c && c <= b.hi) {
            Some(b) => b,
            None => return false,
        };
        for &n in &b.lens {
            let m = n.min(s.len());
            if b.hashes.contains(&murmur3(&s[..m], font.seed)) {
                return !font.map.contains_key(&s[..m]);
            }
        }
        false
    }

    /// First step of the parse of non-empty s in the given Latin style
    pub fn tok(&self, latin: F, s: &[char]) -> Tok {
        if s[0] == '\n' {
            return Tok::Newline;
        }
        for f in [F::Emoji, latin, F::Hanzi] {
            if let Some((glyph, chars)) = self.find(f, s) {
                return Tok::Glyph { font: f, glyph, chars };
            }
        }
        let (glyph, _) = self.find(latin, &['\u{FFFD}']).expect("replacement character");
        Tok::Glyph { font: latin, glyph, chars: 1 }
    }

    pub fn toks(&self, latin: F, s: &[char]) -> Vec<Tok> {
        let mut v = vec![];
        let mut i = 0;
        while i < s.len() {
            let t = self.tok(latin, &s[i..]);
            i += t.chars();
            v.push(t);
        }
        v
    }

    /// Does any lookup of the parse run into a 32-bit hash collision (see
    /// known_findings.txt)? Generated texts never do.
    pub fn text_collides(&self, latin: F, s: &[char]) -> bool {
        let mut i = 0;
        while i < s.len() {
            if s[i] == '\n' {
                i += 1;
                continue;
            }
            for f in [F::Emoji, latin, F::Hanzi] {
                if self.collides(f, &s[i..]) {
                    return true;
                }
                if self.find(f, &s[i..]).is_some() {
                    break;
                }
            }
            i += self.tok(latin, &s[i..]).chars();
        }
        false
    }
}

/// Latin font of a style register
pub fn latin_of(style: u64) -> F {
    match style {
        0 => F::Small,
        2 => F::Bold,
        _ => F::Regular,
    }
}
