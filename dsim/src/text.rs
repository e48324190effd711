//! Workload text: clusters of every script the fonts know, broken clusters,
//! unsupported characters, newlines.

use crate::reffont::{Ref, F};
use crate::rng::Rng;
use std::collections::HashMap;

pub const POOLS: usize = 13;

/// Characters by pool, made once
pub struct Atoms {
    pools: Vec<Vec<Vec<char>>>,
    /// For each character the clusters of several characters that it is part of
    within: HashMap<char, Vec<Vec<char>>>,
}

const UNSUPPORTED: &str = "\u{416}\u{44f}\u{5d0}\u{627}\u{e01}\u{3042}\u{ac00}\t\r\u{0}\u{7f}\u{ad}\u{200b}\u{200d}\u{fe0f}\u{300}\u{301}\u{20e3}\u{10ffff}\u{e0067}\u{2028}\u{feff}\u{1f1e6}\u{1f3fb}\u{378}\u{e000}\u{f8ff}\u{fffe}\u{1ffff}\u{3130}\u{1f000}\u{2190}\u{2300}";

impl Atoms {
    pub fn new(rf: &Ref) -> Atoms {
        let mut pools: Vec<Vec<Vec<char>>> = vec![vec![]; POOLS];
        for c in 0x21..0x7f {
            pools[0].push(vec![char::from_u32(c).unwrap()]);
        }
        for (c, _) in &rf.font(F::Regular).clusters {
            if c.len() > 1 {
                pools[2].push(c.clone());
            } else if c[0] as u32 > 0x7f {
                pools[1].push(c.clone());
            }
        }
        for (c, _) in &rf.font(F::Emoji).clusters {
            if c.len() == 1 {
                pools[3].push(c.clone());
            } else {
                pools[4].push(c.clone());
                for n in 1..c.len() {
                    pools[9].push(c[..n].to_vec());
                }
            }
        }
        for (c, _) in &rf.font(F::Hanzi).clusters {
            pools[5].push(c.clone());
        }
        for c in UNSUPPORTED.chars() {
            pools[6].push(vec![c]);
        }
        pools[7].push(vec!['\n']);
        pools[8].push(vec![' ']);
        pools[12] = "Wi.lM_|,'@mw-".chars().map(|c| vec![c]).collect();
        let mut within: HashMap<char, Vec<Vec<char>>> = HashMap::new();
        for f in [F::Regular, F::Emoji] {
            for (c, _) in &rf.font(f).clusters {
                for i in 0..c.len() {
                    if c.len() > 1 && !c[..i].contains(&c[i]) {
                        within.entry(c[i]).or_default().push(c.clone());
                    }
                }
            }
        }
        Atoms { pools, within }
    }

    fn atom(&self, r: &mut Rng, pool: usize, out: &mut Vec<char>) {
        match pool {
            10 => loop {
                let c = match r.below(8) {
                    4 => 0xe0000 + r.u32() % 0x1f0,                           // tags, variation selectors
                    5 => *r.pick(&[0x3000, 0xfe00, 0xff00]) + r.u32() % 0x100, // CJK punctuation, BOM, full width
                    6 => 0x2000 + r.u32() % 0x70,                             // spaces, joiners, directions, line ends
                    7 => r.u32() % 0x21,
                    0 => r.u32() % 0x110000,
                    1 => r.u32() % 0x3000,
                    2 => 0x1f000 + r.u32() % 0xc00,
                    _ => r.u32() % 0x300,
                };
                if let Some(c) = char::from_u32(c) {
                    out.push(c);
                    return;
                }
            },
            11 => {
                out.extend(r.pick(&self.pools[0]));
                out.push(char::from_u32(0x300 + r.u32() % 0x30).unwrap());
            }
            _ => out.extend(r.pick(&self.pools[pool])),
        }
    }

    /// Swarm: pick the pools that one run uses, with weights
    pub fn mix(r: &mut Rng) -> Mix {
        let mut w = [0u64; POOLS];
        match r.below(6) {
            0 => w[0] = 10,
            1 => w[3] = 10,
            2 => w[5] = 10,
            _ => {}
        }
        for p in w.iter_mut() {
            if r.pct(45) {
                *p += r.range(1, 10);
            }
        }
        if w.iter().all(|x| *x == 0) {
            w[0] = 1;
        }
        // Mostly few newlines
        if w[7] > 0 && r.pct(80) {
            w[7] = 1;
        }
        Mix(w)
    }

    fn mixed(&self, r: &mut Rng, mix: &Mix, out: &mut Vec<char>) {
        let mut k = r.below(mix.0.iter().sum());
        let mut pool = 0;
        while k >= mix.0[pool] {
            k -= mix.0[pool];
            pool += 1;
        }
        self.atom(r, pool, out);
    }

    /// A few atoms, clusters that share characters with them, and parts of all of these
    fn family(&self, r: &mut Rng, mix: &Mix) -> Vec<Vec<char>> {
        let mut stock = vec![];
        for _ in 0..r.usize(1, 3) {
            let mut a = vec![];
            self.mixed(r, mix, &mut a);
            for c in a.clone() {
                if let Some(w) = self.within.get(&c) {
                    stock.push(r.pick(w).clone());
                }
            }
            stock.push(a);
        }
        for i in 0..stock.len() {
            let a = stock[i].clone();
            if a.len() > 1 {
                let n = r.usize(1, a.len() - 1);
                stock.push(a[..n].to_vec());
                stock.push(a[n..].to_vec());
                stock.push(a[..1].to_vec());
            }
        }
        stock
    }

    pub fn text(&self, rf: &Ref, r: &mut Rng, mix: &Mix, atoms: usize) -> Vec<char> {
        let mut out = vec![];
        let stock = if r.pct(15) { self.family(r, mix) } else { vec![] };
        for _ in 0..atoms {
            let before = out.len();
            if stock.is_empty() {
                self.mixed(r, mix, &mut out);
            } else {
                out.extend(r.pick(&stock));
            }
            if r.pct(3) && out.len() > before {
                // run of the same atom
                let a = out[before..].to_vec();
                for _ in 0..r.below(12) {
                    out.extend(&a);
                }
            }
        }
        // Inputs of the known finding (hash collisions) are not generated
        while [F::Small, F::Regular, F::Bold].iter().any(|f| rf.text_collides(*f, &out)) {
            let n = out.len() / 2;
            out.truncate(n);
        }
        out
    }
}

/// A text that is longer than 16-bit numbers can say, in bytes or in characters
pub fn long(g: &Atoms, rf: &Ref, r: &mut Rng, mix: &Mix) -> Vec<char> {
    let n = r.usize(5, 300);
    let base = g.text(rf, r, mix, n);
    let goal = *r.pick(&[1 << 12, 1 << 15, 1 << 16, 1 << 16, 1 << 17]) + r.usize(0, 400);
    let bytes = r.pct(50);
    let (mut out, mut have) = (vec![], 0);
    while have < goal && !base.is_empty() {
        for c in &base {
            out.push(*c);
            have += if bytes { c.len_utf8() } else { 1 };
        }
    }
    // What the two ends of the base make together may be a known collision
    while [F::Small, F::Regular, F::Bold].iter().any(|f| rf.text_collides(*f, &out)) {
        let n = out.len() / 2;
        out.truncate(n);
    }
    out
}

/// A long text of one sort: one atom again and again, two in turn, one sort after the other, or a mixture
pub fn plain_long(g: &Atoms, rf: &Ref, r: &mut Rng, mix: &Mix) -> Vec<char> {
    let n = 1usize << r.usize(8, 16);
    let n = r.usize(n, 2 * n);
    let atom = |r: &mut Rng| {
        let mut a = vec![];
        let p = r.usize(0, POOLS - 1);
        g.atom(r, p, &mut a);
        a
    };
    let (a, b) = (atom(r), atom(r));
    let kind = r.below(5);
    let k = r.usize(1, n);
    let base = if kind == 4 { g.text(rf, r, mix, 200) } else { vec![] };
    let mut out = vec![];
    let mut i = 0;
    while out.len() < n {
        match kind {
            0 => out.extend(&a),
            1 => out.extend(if i % 2 == 0 { &a } else { &b }),
            2 => out.extend(if out.len() < k { &a } else { &b }),
            3 => g.mixed(r, mix, &mut out),
            _ if base.is_empty() => out.extend(&a),
            _ => out.extend(&base),
        }
        i += 1;
    }
    while [F::Small, F::Regular, F::Bold].iter().any(|f| rf.text_collides(*f, &out)) {
        let n = out.len() / 2;
        out.truncate(n);
    }
    out
}

#[derive(Clone)]
pub struct Mix(pub [u64; POOLS]);

/// Number of atoms of one text: mostly short
pub fn len(r: &mut Rng) -> usize {
    match r.below(20) {
        0 => 0,
        1..=11 => r.usize(1, 6),
        12..=17 => r.usize(4, 25),
        18 => r.usize(20, 80),
        _ => r.usize(60, 300),
    }
}

/// Cut text at glyph boundaries of its parse in style f into pieces
pub fn cut(rf: &Ref, r: &mut Rng, f: F, text: &[char], every_pct: u32) -> Vec<Vec<char>> {
    let mut pieces = vec![];
    let mut cur = vec![];
    let mut i = 0;
    for t in rf.toks(f, text) {
        if !cur.is_empty() && r.pct(every_pct) {
            pieces.push(std::mem::take(&mut cur));
            if r.pct(3) {
                pieces.push(vec![]);
            }
        }
        cur.extend(&text[i..i + t.chars()]);
        i += t.chars();
    }
    if !cur.is_empty() {
        pieces.push(cur);
    }
    pieces
}
