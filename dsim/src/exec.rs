//! Executes a trace against the real library and checks one property on it.

use crate::model::{self, Cur, Probes, Rect, N, WPL};
use crate::reffont::{latin_of, Ref, Tok};
use crate::rng::{Digest, Rng};
use crate::trace::{Act, Client, Op, Regs, Trace};
use blitstr::{clear_region, demo, glyph_to_height_hint, new_fr_buf, paint_str, ClipRect, Cursor, FrBuf, GlyphStyle, Pt};
use std::cell::Cell;

thread_local! {
    /// Set while library code runs, so that a panic can be told from a bug of the harness
    pub static IN_LIB: Cell<bool> = Cell::new(false);
    pub static AT: Cell<usize> = Cell::new(0);
}

fn lib<T>(f: impl FnOnce() -> T) -> T {
    IN_LIB.with(|c| c.set(true));
    let t = f();
    IN_LIB.with(|c| c.set(false));
    t
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub at: usize,
    pub msg: String,
}

fn bad<T>(class: &str, at: usize, msg: String) -> Result<T, Violation> {
    Err(Violation { class: class.into(), at, msg })
}

#[derive(Clone)]
pub struct Sess {
    pub clip: ClipRect,
    pub style: GlyphStyle,
    pub reg: u64,
    pub cur: Cursor,
}

pub fn clip_of(lit: bool, r: &Regs) -> ClipRect {
    let u = |i: usize| r[i] as usize;
    if lit {
        ClipRect { min: Pt::new(u(0), u(1)), max: Pt::new(u(2), u(3)) }
    } else {
        ClipRect::new(u(0), u(1), u(2), u(3))
    }
}
pub fn rect_of(lit: bool, r: &Regs) -> Rect {
    if lit {
        Rect::literal(*r)
    } else {
        Rect::corners(*r)
    }
}
fn cursor_of(c: &[u64; 3]) -> Cursor {
    Cursor::new(c[0] as usize, c[1] as usize, c[2] as usize)
}
pub fn cur_of(c: &Cursor) -> Cur {
    Cur { x: c.pt.x as u64, y: c.pt.y as u64, lh: c.line_height as u64 }
}
fn style_of(reg: u64) -> GlyphStyle {
    GlyphStyle::from(reg as usize)
}

/// Memory addresses are a source of nondeterminism, too: where frame buffers
/// and texts lie, modulo 64, is decided by a counter that starts at the trace's seed
#[repr(align(64))]
struct Place<T>(T);
const SHIFT: usize = 16;

pub struct Screen {
    mem: Box<Place<[u32; N + SHIFT]>>,
    off: usize,
}

impl Screen {
    pub fn new(fb: FrBuf) -> Screen {
        let off = place() as usize % SHIFT;
        let mut s = Screen { mem: Box::new(Place([0; N + SHIFT])), off };
        s.copy_from_slice(&fb);
        s
    }
}
impl Clone for Screen {
    fn clone(&self) -> Screen {
        Screen::new(**self)
    }
}
impl std::ops::Deref for Screen {
    type Target = FrBuf;
    fn deref(&self) -> &FrBuf {
        (&self.mem.0[self.off..self.off + N]).try_into().unwrap()
    }
}
impl std::ops::DerefMut for Screen {
    fn deref_mut(&mut self) -> &mut FrBuf {
        (&mut self.mem.0[self.off..self.off + N]).try_into().unwrap()
    }
}

thread_local!(static PLACES: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
thread_local!(static PINNED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
/// From now on the same place for everything (tsim: not what it is about)
pub fn pin() {
    PINNED.with(|p| p.set(true));
}
fn place() -> u64 {
    if PINNED.with(|p| p.get()) {
        return 0;
    }
    PLACES.with(|p| {
        let n = p.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        p.set(n);
        n >> 33
    })
}

/// The text at the start of a seeded distance from a 64-byte boundary
fn with_text<T>(t: &[char], f: impl FnOnce(&str) -> T) -> T {
    const L: usize = 256;
    let off = place() as usize % 16;
    let n: usize = t.iter().map(|c| c.len_utf8()).sum();
    if off + n > L {
        return f(&t.iter().collect::<String>());
    }
    let mut mem = Place([0u8; L]);
    let bytes = &mut mem.0;
    let mut k = off;
    for c in t {
        k += c.encode_utf8(&mut bytes[k..]).len();
    }
    f(std::str::from_utf8(&bytes[off..k]).unwrap())
}

/// What a display crash leaves in the frame buffer
pub fn dirty(kind: u64, seed: u64, fb: &mut [u32]) {
    let mut r = Rng::new(seed);
    match kind {
        0 => fb.iter_mut().for_each(|w| *w = !0),
        1 => fb.iter_mut().for_each(|w| *w = 0),
        2 => fb.iter_mut().for_each(|w| *w = r.u32()),
        3 => fb.iter_mut().for_each(|w| *w = !*w),
        4 => {
            for _ in 0..r.range(1, 40) {
                let i = r.below(fb.len() as u64) as usize;
                fb[i] ^= 1 << r.below(32);
            }
        }
        5 => {
            // torn: the lines from some word on hold something else
            let i = r.below(fb.len() as u64) as usize;
            let v = [0, !0, r.u32()][r.below(3) as usize];
            fb[i..].iter_mut().for_each(|w| *w = v);
        }
        _ => fb.iter_mut().for_each(|w| *w = 0xffff0000),
    }
}

fn demo_k(k: u64, fb: &mut FrBuf) {
    match k % 3 {
        0 => demo::sample_text(fb),
        1 => demo::short_greeting(fb),
        _ => demo::goose_poem(fb),
    }
}

thread_local!(static SMALL: Cell<bool> = const { Cell::new(false) });
/// The stack of a painter that gets a long text (C05)
#[cfg(not(target_arch = "wasm32"))]
const STACK: usize = if cfg!(feature = "plain") { 1 << 20 } else { 64 << 10 }; // room for copies of constant tables

/// Paint, a long text of C05 on a small stack
fn paint_on_stack(fb: &mut FrBuf, clip: ClipRect, c: &mut Cursor, style: GlyphStyle, text: &str) {
    #[cfg(not(target_arch = "wasm32"))]
    if SMALL.with(|s| s.get()) && text.len() >= 256 {
        let r = std::thread::scope(|s| {
            let paint = || paint_str(fb, clip, c, style, text);
            std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, paint).expect("thread").join()
        });
        if let Err(e) = r {
            std::panic::resume_unwind(e);
        }
        return;
    }
    paint_str(fb, clip, c, style, text)
}

/// The display server: one frame buffer, one session per client
#[derive(Clone)]
pub struct Real {
    pub fb: Screen,
    pub sess: Vec<Sess>,
    /// Result cursor of the last PaintRaw
    pub last: Cur,
}

pub fn start_fb(fb0: (u64, u64)) -> Screen {
    let mut fb = Screen::new(new_fr_buf());
    dirty(fb0.0, fb0.1, &mut fb[..]);
    fb
}

fn session(c: &Client) -> Sess {
    let clip = clip_of(false, &c.clip);
    let cur = match &c.cur {
        None => Cursor::from_top_left_of(clip),
        Some(c) => cursor_of(c),
    };
    Sess { clip, style: style_of(c.style), reg: c.style, cur }
}

impl Real {
    pub fn new(t: &Trace) -> Real {
        lib(|| Real { fb: start_fb(t.fb0), sess: t.clients.iter().map(session).collect(), last: Cur { x: 0, y: 0, lh: 0 } })
    }

    /// Every call into the library is made here (or in demo_k)
    pub fn apply(&mut self, op: &Op) {
        let Real { fb, sess, last } = self;
        lib(|| match op {
            Op::Paint { cl, text } => {
                let s = &mut sess[*cl];
                with_text(text, |text| paint_on_stack(fb, s.clip, &mut s.cur, s.style, text));
            }
            Op::Style { cl, reg } => {
                sess[*cl].style = style_of(*reg);
                sess[*cl].reg = *reg;
            }
            Op::Clip { cl, regs } => {
                let s = &mut sess[*cl];
                s.clip = clip_of(false, regs);
                s.cur = Cursor::from_top_left_of(s.clip);
            }
            Op::Seek { cl, cur } => sess[*cl].cur = cursor_of(cur),
            Op::Home { cl } => {
                let s = &mut sess[*cl];
                s.cur = Cursor::from_top_left_of(s.clip);
            }
            Op::Clear { cl } => clear_region(fb, sess[*cl].clip),
            Op::Restart { cl } => {
                // Everything but these registers was lost
                let s = &mut sess[*cl];
                let c = cur_of(&s.cur);
                let (x0, y0, x1, y1) = (s.clip.min.x, s.clip.min.y, s.clip.max.x, s.clip.max.y);
                let style: usize = s.style.into();
                s.cur = cursor_of(&[c.x, c.y, c.lh]);
                s.clip = match (c.x ^ c.y) % 4 {
                    0 => ClipRect::new(x0, y0, x1, y1),
                    1 => ClipRect::new(x1, y0, x0, y1),
                    2 => ClipRect::new(x0, y1, x1, y0),
                    _ => ClipRect::new(x1, y1, x0, y0),
                };
                s.style = GlyphStyle::from(style);
            }
            Op::ClearRaw { lit, regs } => clear_region(fb, clip_of(*lit, regs)),
            Op::PaintRaw { lit, regs, cur, style, text, .. } => {
                let mut c = cursor_of(cur);
                with_text(text, |text| paint_on_stack(fb, clip_of(*lit, regs), &mut c, style_of(*style), text));
                *last = cur_of(&c);
            }
            Op::Demo { k } => demo_k(*k, fb),
            Op::Dirt { kind, seed, .. } => dirty(*kind, *seed, &mut fb[..]),
        })
    }
    fn cur(&self, cl: usize) -> Cur {
        cur_of(&self.sess[cl].cur)
    }
    fn rect(&self, cl: usize) -> Rect {
        let c = &self.sess[cl].clip;
        Rect { x0: c.min.x as u64, y0: c.min.y as u64, x1: c.max.x as u64, y1: c.max.y as u64 }
    }
}

/// First differing pixel, for messages
fn diff(a: &[u32], b: &[u32]) -> Option<String> {
    for i in 0..N {
        if a[i] != b[i] {
            let bit = (a[i] ^ b[i]).trailing_zeros();
            let n: u32 = (0..N).map(|i| (a[i] ^ b[i]).count_ones()).sum();
            return Some(format!(
                "{} pixels differ, first at x={} y={} ({} instead of {})",
                n,
                i % WPL * 32 + bit as usize,
                i / WPL,
                a[i] >> bit & 1,
                b[i] >> bit & 1
            ));
        }
    }
    None
}

fn visible(fb: &[u32]) -> Vec<u32> {
    let mut v = fb.to_vec();
    for y in 0..N / WPL {
        v[y * WPL + WPL - 1] |= 0xffff0000;
    }
    v
}

/// First change between a and b outside r (r not ok: any change)
fn outside(a: &[u32], b: &[u32], r: Rect) -> Option<String> {
    for i in 0..N {
        let mut d = a[i] ^ b[i];
        if d != 0 {
            if r.ok() {
                d &= !r.word_mask((i / WPL) as u64, i % WPL);
            }
            if d != 0 {
                return Some(format!("pixel x={} y={} changed outside {:?}", i % WPL * 32 + d.trailing_zeros() as usize, i / WPL, r));
            }
        }
    }
    None
}

fn show(c: Cur) -> String {
    format!("({},{},{})", c.x, c.y, c.lh)
}

/// Check one trace; digests gets a digest of the state after every act (C09, and for determinism checks)
pub fn check(rf: &Ref, t: &Trace, p: &mut Probes, digests: &mut Vec<u64>) -> Result<(), Violation> {
    AT.with(|a| a.set(0));
    SMALL.with(|s| s.set(t.prop == "C05"));
    PLACES.with(|p| p.set(t.seed ^ (usize::BITS as u64) << 32 ^ cfg!(debug_assertions) as u64)); // other places in each build
    assert!(legal(t), "illegal trace");
    match t.prop.as_str() {
        "C01" => c01(rf, t, p, digests),
        "C02" => c02(rf, t, p, digests),
        "C03" => c03(t, digests),
        "C04" => c04(t, digests),
        "C05" => c05(t, digests),
        "C06" => c06(t, digests),
        "C07" => c07(t, digests),
        "C08" => c08(rf, t, p, digests),
        "C09" => c09(t, digests),
        "C15" => c15(rf, t, digests),
        "C20" => c20(t, digests),
        "C21" => c21(rf, t, p, digests),
        "C22" => c22(t, digests),
        "C23" => c23(t, digests),
        "C26" => c26(rf, t, p, digests),
        p => panic!("no oracle for {}", p),
    }
}

/// Is the trace inside what its property quantifies over? Generated traces
/// always are; minimising must not leave it.
pub fn legal(t: &Trace) -> bool {
    match t.prop.as_str() {
        "C03" | "C07" => {
            // Windows each painter uses
            let mut wins: Vec<Vec<Rect>> = t.clients.iter().map(|c| vec![Rect::corners(c.clip)]).collect();
            let mut clears = vec![t.prop == "C07"; t.clients.len()];
            for a in &t.acts {
                match &a.op {
                    Op::Clip { cl, regs } => wins[*cl].push(Rect::corners(*regs)),
                    Op::Clear { cl } => clears[*cl] = true,
                    _ => {}
                }
            }
            (0..wins.len()).all(|i| {
                !clears[i]
                    || (wins[i].iter().all(Rect::ok) && (0..wins.len()).all(|j| j == i || wins[i].iter().all(|a| wins[j].iter().all(|b| !a.intersects(b)))))
            })
        }
        "C06" => {
            let mut seen: std::collections::HashMap<u64, &Op> = Default::default();
            t.acts.iter().all(|a| match &a.op {
                Op::PaintRaw { id, .. } => **seen.entry(*id).or_insert(&a.op) == a.op,
                _ => true,
            })
        }
        "C22" => {
            let ((x0, x1), (y0, y1)) = room(t);
            let (dx, dy) = shift_of(t.knob);
            x0 <= dx && dx <= x1 && y0 <= dy && dy <= y1
        }
        _ => true,
    }
}

/// How far all windows of the trace can be moved together, in x and in y
pub fn room(t: &Trace) -> ((i64, i64), (i64, i64)) {
    let (w, h) = (model::W as i64, model::H as i64);
    let (mut lo, mut hi) = ((w, h), (0, 0));
    let mut rect = |r: Rect| {
        if r.ok() {
            lo = (lo.0.min(r.x0 as i64), lo.1.min(r.y0 as i64));
            hi = (hi.0.max(r.x1 as i64), hi.1.max(r.y1 as i64));
        }
    };
    t.clients.iter().for_each(|c| rect(Rect::corners(c.clip)));
    for a in &t.acts {
        match &a.op {
            Op::Clip { regs, .. } => rect(Rect::corners(*regs)),
            Op::ClearRaw { lit, regs } | Op::PaintRaw { lit, regs, .. } => rect(rect_of(*lit, regs)),
            _ => {}
        }
    }
    let mut cur = |c: &[u64; 3]| lo = (lo.0.min(c[0].min(w as u64) as i64), lo.1.min(c[1].min(h as u64) as i64));
    t.clients.iter().filter_map(|c| c.cur.as_ref()).for_each(&mut cur);
    t.acts.iter().for_each(|a| {
        if let Op::Seek { cur: c, .. } | Op::PaintRaw { cur: c, .. } = &a.op {
            cur(c)
        }
    });
    ((-lo.0, w - hi.0), (-lo.1, h - hi.1))
}
pub fn shift_knob(dx: i64, dy: i64) -> u64 {
    ((dx + 1000) << 16 | (dy + 1000)) as u64
}
fn shift_of(knob: u64) -> (i64, i64) {
    ((knob >> 16) as i64 - 1000, (knob & 0xffff) as i64 - 1000)
}

fn state(m: &Real) -> u64 {
    let mut d = Digest::new();
    d.words(&m.fb[..]);
    for s in &m.sess {
        let c = cur_of(&s.cur);
        d.add(c.x);
        d.add(c.y);
        d.add(c.lh);
    }
    d.add(m.last.x);
    d.add(m.last.y);
    d.add(m.last.lh);
    d.0
}

fn step(m: &mut Real, i: usize, op: &Op) {
    AT.with(|a| a.set(i));
    m.apply(op);
}

const BIG: u64 = 1 << 32;
fn big(c: Cur) -> bool {
    c.x >= BIG || c.y >= BIG || c.lh >= BIG
}

/// Refinement: real state equals model state after every act
fn c01(rf: &Ref, t: &Trace, p: &mut Probes, digests: &mut Vec<u64>) -> Result<(), Violation> {
    let mut m = Real::new(t);
    let mut fb = vec![0xffff0000u32; N];
    dirty(t.fb0.0, t.fb0.1, &mut fb);
    struct S {
        r: Rect,
        style: u64,
        c: Cur,
    }
    fn home(r: Rect) -> Cur {
        Cur { x: r.x0, y: r.y0, lh: 0 }
    }
    fn arr(c: &[u64; 3]) -> Cur {
        Cur { x: c[0], y: c[1], lh: c[2] }
    }
    let mut s: Vec<S> = t
        .clients
        .iter()
        .map(|c| {
            let r = Rect::corners(c.clip);
            S { r, style: c.style, c: c.cur.as_ref().map_or(home(r), arr) }
        })
        .collect();
    for (i, a) in t.acts.iter().enumerate() {
        step(&mut m, i, &a.op);
        digests.push(state(&m));
        match &a.op {
            Op::Paint { cl, text } => {
                let s = &mut s[*cl];
                let start = s.c;
                model::paint(rf, &mut fb, s.r, &mut s.c, s.style, text, p);
                let real = m.cur(*cl);
                if !s.r.ok() || big(start) || big(s.c) {
                    s.c = real;
                } else if real != s.c {
                    return bad("cursor", i, format!("cursor of painter {} is {} instead of {}", cl, show(real), show(s.c)));
                }
            }
            Op::Style { cl, reg } => s[*cl].style = *reg,
            Op::Clip { cl, regs } => {
                s[*cl].r = Rect::corners(*regs);
                s[*cl].c = home(s[*cl].r);
            }
            Op::Seek { cl, cur } => s[*cl].c = arr(cur),
            Op::Home { cl } => s[*cl].c = home(s[*cl].r),
            Op::Clear { cl } => model::clear(&mut fb, s[*cl].r),
            Op::Restart { .. } => {}
            Op::ClearRaw { lit, regs } => model::clear(&mut fb, rect_of(*lit, regs)),
            Op::PaintRaw { lit, regs, cur, style, text, .. } => {
                let r = rect_of(*lit, regs);
                let mut c = arr(cur);
                model::paint(rf, &mut fb, r, &mut c, *style, text, p);
                if r.ok() && !big(arr(cur)) && !big(c) && c != m.last {
                    return bad("cursor", i, format!("cursor is {} instead of {}", show(m.last), show(c)));
                }
            }
            Op::Demo { .. } => fb.copy_from_slice(&m.fb[..]),
            Op::Dirt { kind, seed, .. } => dirty(*kind, *seed, &mut fb),
        }
        if let Some(d) = diff(&m.fb[..], &fb) {
            return bad("pixels", i, d);
        }
    }
    Ok(())
}

/// Same stream cut at other places: same pixels, same cursors
fn c02(rf: &Ref, t: &Trace, p: &mut Probes, digests: &mut Vec<u64>) -> Result<(), Violation> {
    let mut m = Real::new(t);
    let n = t.clients.len();
    // Cursors of each client whenever a stretch of text ends
    let mut ends: Vec<Vec<Cur>> = vec![vec![]; n];
    for (i, a) in t.acts.iter().enumerate() {
        if let (Some(cl), false) = (a.op.client(), matches!(a.op, Op::Paint { .. } | Op::Restart { .. })) {
            ends[cl].push(m.cur(cl));
        }
        step(&mut m, i, &a.op);
        digests.push(state(&m));
    }
    for cl in 0..n {
        ends[cl].push(m.cur(cl));
    }
    // The reference execution: one painter after the other, each stretch of
    // text in as few calls as there can be
    let mut w = Real::new(t);
    let last = t.acts.len().saturating_sub(1);
    for cl in 0..n {
        let mut k = 0;
        let mut text: Vec<char> = vec![];
        let flush = |w: &mut Real, text: &mut Vec<char>| {
            if !text.is_empty() {
                step(w, last, &Op::Paint { cl, text: std::mem::take(text) });
            }
        };
        for a in t.acts.iter().filter(|a| a.op.client() == Some(cl)) {
            match &a.op {
                Op::Paint { text: piece, .. } => {
                    if !joins(rf, latin_of(w.sess[cl].reg), &text, piece) {
                        flush(&mut w, &mut text);
                    } else if !text.is_empty() && !piece.is_empty() {
                        p.0[model::JOINS] += 1;
                    }
                    text.extend(piece);
                }
                Op::Restart { .. } => {}
                op => {
                    flush(&mut w, &mut text);
                    if w.cur(cl) != ends[cl][k] {
                        return bad("cursor", last, format!("painter {}: cursor {} after stretch {} in pieces, {} in one call", cl, show(ends[cl][k]), k, show(w.cur(cl))));
                    }
                    k += 1;
                    step(&mut w, last, op);
                }
            }
        }
        flush(&mut w, &mut text);
        if w.cur(cl) != ends[cl][k] {
            return bad("cursor", last, format!("painter {}: cursor {} after stretch {} in pieces, {} in one call", cl, show(ends[cl][k]), k, show(w.cur(cl))));
        }
    }
    if let Some(d) = diff(&m.fb[..], &w.fb[..]) {
        return bad("pixels", last, format!("text in pieces against text in one call: {}", d));
    }
    Ok(())
}

/// Can the pieces a and b be painted in one call with the same glyphs?
fn joins(rf: &Ref, latin: crate::reffont::F, a: &[char], b: &[char]) -> bool {
    if a.is_empty() || b.is_empty() {
        return true;
    }
    // Only the last clusters of a can change when b follows
    let mut ab = a.to_vec();
    ab.extend(b);
    if rf.text_collides(latin, &ab) {
        return false;
    }
    let mut v = rf.toks(latin, a);
    v.extend(rf.toks(latin, b));
    rf.toks(latin, &ab) == v
}

/// Any order of the painters' calls: same pixels, same cursors
fn c03(t: &Trace, digests: &mut Vec<u64>) -> Result<(), Violation> {
    let mut m = Real::new(t);
    for (i, a) in t.acts.iter().enumerate() {
        step(&mut m, i, &a.op);
        digests.push(state(&m));
    }
    let n = t.clients.len();
    let lists: Vec<Vec<&Op>> = (0..n).map(|cl| t.acts.iter().filter(|a| a.op.client() == Some(cl)).map(|a| &a.op).collect()).collect();
    let mut r = Rng::new(t.seed ^ 0xc03);
    let last = t.acts.len().saturating_sub(1);
    for kind in 0..5 {
        let mut w = Real::new(t);
        let mut pos = vec![0; n];
        let mut turn = 0;
        let mut left: usize = lists.iter().map(|l| l.len()).sum();
        while left > 0 {
            let cl = match kind {
                0 => (0..n).find(|c| pos[*c] < lists[*c].len()).unwrap(),
                1 => (0..n).rev().find(|c| pos[*c] < lists[*c].len()).unwrap(),
                2 => {
                    turn += 1;
                    turn % n
                }
                _ => r.below(n as u64) as usize,
            };
            if pos[cl] < lists[cl].len() {
                step(&mut w, last, lists[cl][pos[cl]]);
                pos[cl] += 1;
                left -= 1;
            }
        }
        let name = ["painter by painter", "painters in reverse", "round robin", "random order", "random order"][kind];
        for cl in 0..n {
            if w.cur(cl) != m.cur(cl) {
                return bad("cursor", last, format!("painter {}: cursor {} as delivered, {} {}", cl, show(m.cur(cl)), show(w.cur(cl)), name));
            }
        }
        if let Some(d) = diff(&m.fb[..], &w.fb[..]) {
            return bad("pixels", last, format!("as delivered against {}: {}", name, d));
        }
    }
    Ok(())
}

fn c04(t: &Trace, digests: &mut Vec<u64>) -> Result<(), Violation> {
    let mut m = Real::new(t);
    for (i, a) in t.acts.iter().enumerate() {
        let before = m.fb.clone();
        let r = match &a.op {
            Op::ClearRaw { lit, regs } | Op::PaintRaw { lit, regs, .. } => Some(rect_of(*lit, regs)),
            Op::Paint { cl, .. } | Op::Clear { cl } => Some(m.rect(*cl)),
            Op::Dirt { .. } | Op::Demo { .. } => None,
            _ => Some(Rect { x0: 0, y0: 0, x1: 0, y1: 0 }),
        };
        step(&mut m, i, &a.op);
        digests.push(state(&m));
        if let Some(r) = r {
            if let Some(d) = outside(&before[..], &m.fb[..], r) {
                return bad("outside", i, d);
            }
        }
    }
    Ok(())
}

/// Sees every store into a frame buffer: what the word held after each (set by tsim's build)
pub struct Watch {
    pub begin: fn(*const u32, usize),
    /// (word, value) in the order of the stores; false: the record was full
    pub end: fn() -> (Vec<(u32, u32)>, bool),
}
thread_local!(pub static WATCH: Cell<Option<&'static Watch>> = const { Cell::new(None) });
/// Stores that were seen, stores that changed a pixel, calls with too many stores, calls with stores that were not seen
pub static SEEN: [std::sync::atomic::AtomicU64; 4] = [const { std::sync::atomic::AtomicU64::new(0) }; 4];

/// After every store inside a call, every pixel is as before or as after the call
fn c20(t: &Trace, digests: &mut Vec<u64>) -> Result<(), Violation> {
    use std::sync::atomic::Ordering::Relaxed;
    let w = WATCH.with(|w| w.get()).expect("C20 needs the instrumented build");
    let mut m = Real::new(t);
    for (i, a) in t.acts.iter().enumerate() {
        if !matches!(a.op, Op::ClearRaw { .. } | Op::PaintRaw { .. } | Op::Paint { .. } | Op::Clear { .. }) {
            step(&mut m, i, &a.op);
            digests.push(state(&m));
            continue;
        }
        let before = m.fb.to_vec();
        (w.begin)(m.fb.as_ptr(), N);
        AT.with(|a| a.set(i));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.apply(&a.op)));
        let (stores, whole) = (w.end)();
        if let Err(e) = r {
            std::panic::resume_unwind(e);
        }
        digests.push(state(&m));
        let after = &m.fb[..];
        let mut last = before.clone();
        SEEN[0].fetch_add(stores.len() as u64, Relaxed);
        SEEN[2].fetch_add(!whole as u64, Relaxed);
        for (n, (k, v)) in stores.iter().enumerate() {
            let k = *k as usize;
            SEEN[1].fetch_add((last[k] != *v) as u64, Relaxed);
            last[k] = *v;
            let mut wrong = (v ^ before[k]) & !(before[k] ^ after[k]);
            if k % WPL == WPL - 1 {
                wrong &= 0xffff; // the rest is right of the screen
            }
            if wrong != 0 {
                return bad("glimpse", i, format!(
                    "after store {} of {} pixel x={} y={} is {}, before and after the call it is {}",
                    n + 1, stores.len(), k % WPL * 32 + wrong.trailing_zeros() as usize, k / WPL, v >> wrong.trailing_zeros() & 1, after[k] >> wrong.trailing_zeros() & 1
                ));
            }
        }
        // Words that changed by stores that were not seen (none, today)
        SEEN[3].fetch_add((whole && last != after) as u64, Relaxed);
    }
    Ok(())
}

const PROBE_TEXT: &str = "Grüße: 1,2 a\u{308}!\n🍎🕶🅰\u{FE0F} 鹅鹅鹅\u{416}\u{10ffff}\nWrap this line of text in a narrow box";

fn probes(fb: &mut FrBuf) -> Vec<u64> {
    let mut d = vec![];
    lib(|| {
        clear_region(fb, ClipRect::full_screen());
        for (k, clip) in [ClipRect::full_screen(), ClipRect::padded_screen(), ClipRect::new(200, 311, 37, 402)].iter().enumerate() {
            let mut c = Cursor::from_top_left_of(*clip);
            for st in [GlyphStyle::Small, GlyphStyle::Regular, GlyphStyle::Bold] {
                paint_str(fb, *clip, &mut c, st, PROBE_TEXT);
            }
            if k == 1 {
                clear_region(fb, *clip);
            }
            let c = cur_of(&c);
            d.extend([c.x, c.y, c.lh]);
        }
    });
    let mut g = Digest::new();
    g.words(&visible(&fb[..]));
    d.push(g.0);
    d
}

/// No panic or hang on the way (caught by the caller), and as good as new afterwards
fn c05(t: &Trace, digests: &mut Vec<u64>) -> Result<(), Violation> {
    let mut m = Real::new(t);
    for (i, a) in t.acts.iter().enumerate() {
        step(&mut m, i, &a.op);
        digests.push(state(&m));
    }
    let last = t.acts.len().saturating_sub(1);
    AT.with(|a| a.set(last));
    let mut fresh = Screen::new(new_fr_buf());
    let want = probes(&mut fresh);
    let got = probes(&mut m.fb);
    if want != got {
        return bad("unusable", last, "clearing and painting after this history differs from a fresh screen".into());
    }
    Ok(())
}

/// n deliveries of a paint message count n mod 2 times
fn c06(t: &Trace, digests: &mut Vec<u64>) -> Result<(), Violation> {
    let mut m = Real::new(t);
    let start = m.fb.clone();
    let mut seen: Vec<(u64, usize, Cur, usize)> = vec![]; // id, count, cursor, act
    for (i, a) in t.acts.iter().enumerate() {
        step(&mut m, i, &a.op);
        digests.push(state(&m));
        if let Op::PaintRaw { id, .. } = &a.op {
            match seen.iter_mut().find(|s| s.0 == *id) {
                Some(s) => {
                    s.1 += 1;
                    if s.2 != m.last {
                        return bad("cursor", i, format!("message {} left the cursor at {} first, at {} now", id, show(s.2), show(m.last)));
                    }
                }
                None => seen.push((*id, 1, m.last, i)),
            }
        }
    }
    let last = t.acts.len().saturating_sub(1);
    let mut w = Real::new(t);
    for s in &seen {
        if s.1 % 2 == 1 {
            step(&mut w, last, &t.acts[s.3].op);
        }
    }
    if let Some(d) = diff(&m.fb[..], &w.fb[..]) {
        return bad("parity", last, format!("as delivered against once for every odd count: {}", d));
    }
    // Take everything back, in another order
    let mut r = Rng::new(t.seed ^ 0xc06);
    let mut order: Vec<usize> = (0..t.acts.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i as u64 + 1) as usize);
    }
    for i in order {
        step(&mut m, i, &t.acts[i].op);
    }
    if let Some(d) = diff(&m.fb[..], &start[..]) {
        return bad("undo", last, format!("after painting everything a second time: {}", d));
    }
    Ok(())
}

/// Clear and replay after display crashes
fn c07(t: &Trace, digests: &mut Vec<u64>) -> Result<(), Violation> {
    let n = t.clients.len();
    let mut u = Real::new(t); // never crashes
    let mut x = Real::new(t); // crashes
    // Painters clear their windows when they connect
    for cl in 0..n {
        step(&mut u, 0, &Op::Clear { cl });
        step(&mut x, 0, &Op::Clear { cl });
    }
    // What each painter has to do again: session at its last clear, and what followed
    let mut log: Vec<(Sess, Vec<Op>)> = (0..n).map(|cl| (x.sess[cl].clone(), vec![])).collect();
    for (i, a) in t.acts.iter().enumerate() {
        match &a.op {
            Op::Dirt { kind, seed, mid } => {
                dirty(*kind, *seed, &mut x.fb[..]);
                let mut steps = if *mid == 0 { u64::MAX } else { *mid };
                let mut cl = 0;
                while cl < n {
                    let before = x.fb.clone();
                    let keep = x.sess[cl].clone();
                    let mut crashed = false;
                    x.sess[cl] = log[cl].0.clone();
                    for op in std::iter::once(&Op::Clear { cl }).chain(&log[cl].1) {
                        if steps == 0 {
                            crashed = true;
                            break;
                        }
                        steps -= 1;
                        step(&mut x, i, op);
                        if matches!(op, Op::Clear { .. }) {
                            let once = x.fb.clone();
                            step(&mut x, i, op);
                            if let Some(d) = diff(&x.fb[..], &once[..]) {
                                return bad("clear twice", i, d);
                            }
                        }
                    }
                    if crashed {
                        // Start all over on other content
                        x.sess[cl] = keep;
                        dirty((*kind + *mid) % 7, seed ^ mid, &mut x.fb[..]);
                        steps = u64::MAX;
                        cl = 0;
                        continue;
                    }
                    if cur_of(&keep.cur) != x.cur(cl) {
                        return bad("cursor", i, format!("painter {}: cursor {} after recovery instead of {}", cl, show(x.cur(cl)), show(cur_of(&keep.cur))));
                    }
                    if let Some(d) = outside(&before[..], &x.fb[..], x.rect(cl)) {
                        return bad("outside", i, format!("recovery of painter {}: {}", cl, d));
                    }
                    cl += 1;
                }
            }
            op => {
                step(&mut u, i, op);
                step(&mut x, i, op);
                if let Some(cl) = op.client() {
                    if matches!(op, Op::Clear { .. }) {
                        log[cl] = (x.sess[cl].clone(), vec![]);
                    } else {
                        log[cl].1.push(op.clone());
                    }
                }
            }
        }
        digests.push(state(&x));
        for cl in 0..n {
            // Inside the window, the crashed display shows what the other shows
            let r = x.rect(cl);
            for y in r.y0..r.y1 {
                for w in 0..WPL {
                    let k = y as usize * WPL + w;
                    let d = (x.fb[k] ^ u.fb[k]) & r.word_mask(y, w);
                    if d != 0 {
                        return bad("pixels", i, format!("window of painter {} differs at x={} y={} from a display that never crashed", cl, w * 32 + d.trailing_zeros() as usize, y));
                    }
                }
            }
        }
    }
    let last = t.acts.len().saturating_sub(1);
    if t.knob >= 2 {
        let k = t.seed % 3;
        let mut fresh = Screen::new(new_fr_buf());
        let mut fb = x.fb.clone();
        dirty(t.seed / 3 % 7, t.seed, &mut fb[..]);
        AT.with(|a| a.set(last));
        lib(|| demo_k(k, &mut fresh));
        lib(|| demo_k(k, &mut fb));
        if let Some(d) = diff(&visible(&fb[..]), &visible(&fresh[..])) {
            return bad("demo", last, format!("demo {} on a dirty buffer against a fresh one: {}", k, d));
        }
    }
    Ok(())
}

/// Along one stream: glyphs disjoint, cursor forward
fn c08(rf: &Ref, t: &Trace, p: &mut Probes, digests: &mut Vec<u64>) -> Result<(), Violation> {
    struct S {
        mask: Vec<u32>,
        lines: u64, // tallest so far on this line
    }
    let mut m = Real::new(t);
    let mut ss: Vec<S> = t.clients.iter().map(|_| S { mask: vec![0; N], lines: 0 }).collect();
    for (i, a) in t.acts.iter().enumerate() {
        let (cl, text) = match &a.op {
            Op::Paint { cl, text } => (*cl, text),
            op => {
                step(&mut m, i, op);
                digests.push(state(&m));
                if let (Some(cl), true) = (op.client(), matches!(op, Op::Seek { .. } | Op::Home { .. } | Op::Clip { .. })) {
                    ss[cl] = S { mask: vec![0; N], lines: 0 };
                }
                continue;
            }
        };
        let s = &mut ss[cl];
        let r = m.rect(cl);
        // The piece glyph by glyph, each on a blank buffer
        let latin = latin_of(m.sess[cl].reg);
        let hint = lib(|| glyph_to_height_hint(m.sess[cl].style)) as u64;
        let mut g = Real { fb: Screen::new([0; N]), sess: m.sess.clone(), last: m.last };
        let mut k = 0;
        let mut ones = 0u64;
        for tok in rf.toks(latin, text) {
            let c0 = g.cur(cl);
            step(&mut g, i, &Op::Paint { cl, text: text[k..k + tok.chars()].to_vec() });
            k += tok.chars();
            let c1 = g.cur(cl);
            let tall = match tok {
                Tok::Newline => 0,
                Tok::Glyph { font, .. } if font == latin => hint.max(rf.font(font).height as u64),
                Tok::Glyph { .. } => 32,
            };
            let mut lo = (u64::MAX, u64::MAX);
            let (mut hi_x, mut hi_y) = (0, 0);
            for (j, w) in g.fb.iter().enumerate() {
                if *w == 0 {
                    continue;
                }
                ones += w.count_ones() as u64;
                let x = (j % WPL * 32) as u64;
                lo = (lo.0.min(x + w.trailing_zeros() as u64), lo.1.min((j / WPL) as u64));
                hi_x = hi_x.max(x + 31 - w.leading_zeros() as u64);
                hi_y = hi_y.max((j / WPL) as u64);
                if s.mask[j] & w != 0 {
                    let b = (s.mask[j] & w).trailing_zeros() as usize;
                    return bad("overprint", i, format!("painter {}: pixel x={} y={} inverted twice, {:?}", cl, j % WPL * 32 + b, j / WPL, tok));
                }
                s.mask[j] |= w;
            }
            let drew = lo.1 != u64::MAX;
            g.fb.iter_mut().for_each(|w| *w = 0);
            let forward = if c1.y == c0.y && c1.y != u64::MAX {
                tok != Tok::Newline && c1.x > c0.x
            } else {
                // The line is finished
                let want = c0.y.saturating_add(s.lines.max(24));
                s.lines = 0;
                c1.y >= want && c1.x >= r.x0 && (tok != Tok::Newline || c1.x == r.x0)
            };
            if !forward {
                return bad("backward", i, format!("painter {}: cursor went from {} to {} for {:?}", cl, show(c0), show(c1), tok));
            }
            if drew && (hi_x >= c1.x || lo.1 < c1.y || hi_y >= c1.y.saturating_add(tall)) {
                return bad("layout", i, format!("painter {}: glyph at {:?}..({},{}) with the cursor at {} after it, {:?}", cl, lo, hi_x, hi_y, show(c1), tok));
            }
            if drew {
                p.0[model::STREAM_GLYPHS] += 1;
            }
            s.lines = s.lines.max(tall);
        }
        let before = m.fb.clone();
        step(&mut m, i, &a.op);
        digests.push(state(&m));
        let all: u64 = (0..N).map(|j| (before[j] ^ m.fb[j]).count_ones() as u64).sum();
        if all != ones {
            return bad("overprint", i, format!("painter {}: {} pixels inverted by the call, {} by its glyphs one by one", cl, all, ones));
        }
        if m.cur(cl) != g.cur(cl) {
            return bad("cursor", i, format!("painter {}: cursor {} after the call, {} after its glyphs one by one", cl, show(m.cur(cl)), show(g.cur(cl))));
        }
    }
    Ok(())
}

/// Twice the same in one process; the other builds are compared by digests
fn c09(t: &Trace, digests: &mut Vec<u64>) -> Result<(), Violation> {
    let mut m = Real::new(t);
    for (i, a) in t.acts.iter().enumerate() {
        step(&mut m, i, &a.op);
        digests.push(state(&m));
    }
    let mut w = Real::new(t);
    for (i, a) in t.acts.iter().enumerate() {
        step(&mut w, i, &a.op);
        if state(&w) != digests[i] {
            return bad("repeat", i, "the same history gave another frame buffer or cursor the second time".into());
        }
    }
    Ok(())
}

/// One execution, without the reference fonts; done gets every state as it is reached (C09, big-endian machine)
pub fn states(t: &Trace, mut done: impl FnMut(u64)) {
    let mut m = Real::new(t);
    for (i, a) in t.acts.iter().enumerate() {
        step(&mut m, i, &a.op);
        done(state(&m));
    }
}

/// Painters that restart from saved registers, against painters that never crash
fn c15(rf: &Ref, t: &Trace, digests: &mut Vec<u64>) -> Result<(), Violation> {
    let mut m = Real::new(t);
    let mut u = Real::new(t);
    let last = |i: usize| i;
    let plain = |reg: u64| match reg {
        0 => GlyphStyle::Small,
        2 => GlyphStyle::Bold,
        _ => GlyphStyle::Regular,
    };
    let exact = |r: &Regs| {
        let q = Rect::corners(*r);
        ClipRect { min: Pt { x: q.x0 as usize, y: q.y0 as usize }, max: Pt { x: q.x1 as usize, y: q.y1 as usize } }
    };
    for (cl, c) in t.clients.iter().enumerate() {
        u.sess[cl].style = plain(c.style);
        u.sess[cl].clip = exact(&c.clip);
        if c.cur.is_none() {
            let p = u.sess[cl].clip.min;
            u.sess[cl].cur = Cursor { pt: p, line_height: 0 };
        }
    }
    for (i, a) in t.acts.iter().enumerate() {
        step(&mut m, i, &a.op);
        digests.push(state(&m));
        // The same in the painter that keeps its session in memory and never goes through registers
        match &a.op {
            Op::Restart { .. } => {}
            Op::Style { cl, reg } => u.sess[*cl].style = plain(*reg),
            Op::Clip { cl, regs } => {
                u.sess[*cl].clip = exact(regs);
                u.sess[*cl].cur = Cursor { pt: u.sess[*cl].clip.min, line_height: 0 };
            }
            Op::Home { cl } => u.sess[*cl].cur = Cursor { pt: u.sess[*cl].clip.min, line_height: 0 },
            op => step(&mut u, last(i), op),
        }
        for cl in 0..t.clients.len() {
            let (a, b) = (&m.sess[cl], &u.sess[cl]);
            if a.clip != b.clip || a.style != b.style || a.cur != b.cur {
                return bad("session", i, format!("painter {}: session {:?} {:?} {:?} instead of {:?} {:?} {:?}", cl, a.clip, a.style, a.cur, b.clip, b.style, b.cur));
            }
            let h = lib(|| glyph_to_height_hint(a.style)) as u64;
            let want = rf.font(latin_of(a.reg)).height as u64;
            if h != want {
                return bad("hint", i, format!("height hint of {:?} is {} instead of {}", a.style, h, want));
            }
        }
        if let Some(d) = diff(&m.fb[..], &u.fb[..]) {
            return bad("pixels", i, format!("restarted painters against painters that never crashed: {}", d));
        }
    }
    Ok(())
}

/// The clusters of each font by glyph: those of one glyph are spellings of the same
fn spellings(rf: &Ref, font: crate::reffont::F, glyph: usize) -> Vec<&[char]> {
    rf.font(font).clusters.iter().filter(|(c, g)| *g == glyph && c[0] != '\u{FFFD}').map(|(c, _)| &c[..]).collect()
}

/// What a gateway that normalises texts makes of one: how 0: shortest spellings, 1: longest, others: any
pub fn respell(rf: &Ref, latin: crate::reffont::F, text: &[char], how: u64, r: &mut Rng, p: &mut Probes) -> Vec<char> {
    let toks = rf.toks(latin, text);
    let (mut out, mut k, mut changed) = (vec![], 0, 0);
    for t in &toks {
        let old = &text[k..k + t.chars()];
        k += t.chars();
        let mut new = old;
        if let Tok::Glyph { font, glyph, .. } = t {
            if rf.font(*font).map.contains_key(old) {
                let mut s = spellings(rf, *font, *glyph);
                s.sort_by_key(|c| c.len());
                match how {
                    0 => new = s.first().unwrap_or(&old),
                    1 => new = s.last().unwrap_or(&old),
                    _ if !s.is_empty() => new = s[r.below(s.len() as u64) as usize],
                    _ => {}
                }
            }
        }
        changed += (new != old) as u64;
        out.extend(new);
    }
    // Characters that came together may make another cluster
    let same = |t: &Tok| match t {
        Tok::Newline => None,
        Tok::Glyph { font, glyph, .. } => Some((*font as u32, *glyph)),
    };
    let new = rf.toks(latin, &out);
    if rf.text_collides(latin, &out) || new.len() != toks.len() || new.iter().zip(&toks).any(|(a, b)| same(a) != same(b)) {
        return text.to_vec();
    }
    p.0[model::RESPELLED] += changed;
    out
}

/// Other spellings of the same clusters: same pixels, same cursors
fn c21(rf: &Ref, t: &Trace, p: &mut Probes, digests: &mut Vec<u64>) -> Result<(), Violation> {
    let mut m = Real::new(t);
    let mut u = Real::new(t);
    let mut r = Rng::new(t.seed ^ 0xc21);
    for (i, a) in t.acts.iter().enumerate() {
        step(&mut m, i, &a.op);
        digests.push(state(&m));
        let mut op = a.op.clone();
        let latin = match &op {
            Op::Paint { cl, .. } => latin_of(m.sess[*cl].reg),
            Op::PaintRaw { style, .. } => latin_of(*style),
            _ => latin_of(0),
        };
        if let Op::Paint { text, .. } | Op::PaintRaw { text, .. } = &mut op {
            *text = respell(rf, latin, text, t.knob, &mut r, p);
        }
        step(&mut u, i, &op);
        let text = |op: &Op| match op {
            Op::Paint { text, .. } | Op::PaintRaw { text, .. } => text.iter().collect::<String>().escape_unicode().to_string(),
            _ => String::new(),
        };
        for cl in 0..t.clients.len() {
            if m.cur(cl) != u.cur(cl) {
                return bad("cursor", i, format!("painter {}: cursor {}, in the other spelling {} ({} / {})", cl, show(m.cur(cl)), show(u.cur(cl)), text(&a.op), text(&op)));
            }
        }
        if m.last != u.last {
            return bad("cursor", i, format!("cursor {}, in the other spelling {} ({} / {})", show(m.last), show(u.last), text(&a.op), text(&op)));
        }
        if let Some(d) = diff(&u.fb[..], &m.fb[..]) {
            return bad("pixels", i, format!("in the other spelling {} ({} / {})", d, text(&a.op), text(&op)));
        }
    }
    Ok(())
}

/// All windows moved together: the same in them
fn c22(t: &Trace, digests: &mut Vec<u64>) -> Result<(), Violation> {
    let (dx, dy) = shift_of(t.knob);
    let ((x0, x1), (y0, y1)) = room(t);
    // What the windows cover together, in the first layout (empty: no call draws anything)
    let all = Rect { x0: -x0 as u64, y0: -y0 as u64, x1: (model::W as i64 - x1) as u64, y1: (model::H as i64 - y1) as u64 };
    let mv = |v: u64, d: i64| v.wrapping_add(d as u64);
    let mvc = |c: Cur| Cur { x: mv(c.x, dx), y: mv(c.y, dy), lh: c.lh };
    // Word by word; x and y of the first layout from x0,y0 to before x1,y1
    let copy = |m: &Real, u: &mut Real| {
        if all.x0 >= all.x1 {
            return;
        }
        let (a, b) = (all.x0 as i64 + dx, all.x1 as i64 + dx);
        for y in all.y0..all.y1 {
            let src = &m.fb[y as usize * WPL..][..WPL];
            let dst = &mut u.fb[mv(y, dy) as usize * WPL..][..WPL];
            let word = |i: i64| src.get(i as usize).map_or(0, |w| *w as u64);
            for k in a / 32..=(b - 1) / 32 {
                let bits = |n: i64| if n >= 32 { !0 } else { !(!0u32 << n.max(0)) };
                let mask = bits(b - k * 32) & !bits(a - k * 32);
                let p = k * 32 - dx;
                let w = (word(p.div_euclid(32)) | word(p.div_euclid(32) + 1) << 32) >> p.rem_euclid(32);
                dst[k as usize] = dst[k as usize] & !mask | w as u32 & mask;
            }
        }
    };
    let sess = |m: &Real, u: &mut Real, cl: usize| {
        let s = m.sess[cl].clone();
        let c = mvc(cur_of(&s.cur));
        let mut r = m.rect(cl);
        if r.ok() {
            r = Rect { x0: mv(r.x0, dx), y0: mv(r.y0, dy), x1: mv(r.x1, dx), y1: mv(r.y1, dy) };
        }
        u.sess[cl] = Sess { clip: clip_of(true, &[r.x0, r.y0, r.x1, r.y1]), cur: cursor_of(&[c.x, c.y, c.lh]), ..s };
    };
    let far = |c: Cur| c.x >= 1 << 31 || c.y >= 1 << 31 || c.lh >= 1 << 31;
    let mut m = Real::new(t);
    let mut u = Real::new(t);
    dirty((t.fb0.0 + 1) % 7, !t.fb0.1, &mut u.fb[..]);
    copy(&m, &mut u);
    for cl in 0..t.clients.len() {
        sess(&m, &mut u, cl);
    }
    for (i, a) in t.acts.iter().enumerate() {
        let mut wrong = None;
        match &a.op {
            Op::Paint { cl, .. } | Op::Clear { cl } => {
                if m.rect(*cl).ok() && !far(m.cur(*cl)) {
                    step(&mut m, i, &a.op);
                    step(&mut u, i, &a.op);
                    if !far(m.cur(*cl)) && u.cur(*cl) != mvc(m.cur(*cl)) {
                        wrong = Some((u.cur(*cl), mvc(m.cur(*cl))));
                    }
                }
                sess(&m, &mut u, *cl);
            }
            Op::ClearRaw { lit, regs } | Op::PaintRaw { lit, regs, .. } => {
                let r = rect_of(*lit, regs);
                let mut op = a.op.clone();
                let mut skip = !r.ok();
                if let Op::PaintRaw { cur, .. } = &mut op {
                    skip |= far(Cur { x: cur[0], y: cur[1], lh: cur[2] });
                    *cur = [mv(cur[0], dx), mv(cur[1], dy), cur[2]];
                }
                if let Op::ClearRaw { regs, .. } | Op::PaintRaw { regs, .. } = &mut op {
                    *regs = [mv(regs[0], dx), mv(regs[1], dy), mv(regs[2], dx), mv(regs[3], dy)];
                }
                if !skip {
                    step(&mut m, i, &a.op);
                    step(&mut u, i, &op);
                    if matches!(op, Op::PaintRaw { .. }) && !far(m.last) && u.last != mvc(m.last) {
                        wrong = Some((u.last, mvc(m.last)));
                    }
                }
            }
            Op::Demo { .. } => {}
            Op::Dirt { .. } => {
                step(&mut m, i, &a.op);
                copy(&m, &mut u);
            }
            op => {
                step(&mut m, i, op);
                if let Some(cl) = op.client() {
                    sess(&m, &mut u, cl);
                }
            }
        }
        digests.push(state(&m));
        if let Some((a, b)) = wrong {
            return bad("cursor", i, format!("moved by ({},{}) the cursor comes to {} instead of {}", dx, dy, show(a), show(b)));
        }
        let mut w = u.fb.clone();
        std::mem::swap(&mut w, &mut u.fb);
        copy(&m, &mut u);
        std::mem::swap(&mut w, &mut u.fb);
        if let Some(d) = diff(&u.fb[..], &w[..]) {
            return bad("pixels", i, format!("with all windows moved by ({},{}) {}", dx, dy, d));
        }
    }
    Ok(())
}

/// Every call in horizontal strips, the strips of several calls in any order: same pixels, same cursors
fn c23(t: &Trace, digests: &mut Vec<u64>) -> Result<(), Violation> {
    struct Strip {
        clip: ClipRect,
        cur: Cursor,
        style: GlyphStyle,
        text: Vec<char>,
        act: usize,
        end: Cursor,
    }
    let mut m = Real::new(t);
    let mut fb = m.fb.clone();
    let mut r = Rng::new(t.seed ^ 0xc23);
    let mut todo: Vec<Strip> = vec![];
    let flush = |todo: &mut Vec<Strip>, fb: &mut Screen, m: &Real, r: &mut Rng, i: usize| -> Result<(), Violation> {
        while !todo.is_empty() {
            let s = todo.swap_remove(r.below(todo.len() as u64) as usize);
            AT.with(|a| a.set(s.act));
            let mut c = s.cur;
            lib(|| with_text(&s.text, |text| paint_str(fb, s.clip, &mut c, s.style, text)));
            if c != s.end {
                return bad("cursor", s.act, format!("strip {:?} leaves the cursor at {}, the whole window at {}", s.clip, show(cur_of(&c)), show(cur_of(&s.end))));
            }
        }
        match diff(&fb[..], &m.fb[..]) {
            Some(d) => bad("pixels", i, format!("in strips {}", d)),
            None => Ok(()),
        }
    };
    let cuts = |r: &mut Rng, c: &ClipRect| -> Vec<ClipRect> {
        let q = Rect { x0: c.min.x as u64, y0: c.min.y as u64, x1: c.max.x as u64, y1: c.max.y as u64 };
        if !q.ok() {
            return vec![*c];
        }
        let n = *r.pick(&[1, 1, 2, 5, 20]);
        let mut y: Vec<u64> = (0..n).map(|_| r.range(q.y0, q.y1)).collect();
        y.extend([q.y0, q.y1]);
        y.sort();
        y.dedup();
        y.windows(2).map(|w| clip_of(true, &[q.x0, w[0], q.x1, w[1]])).collect()
    };
    for (i, a) in t.acts.iter().enumerate() {
        // Session or message that this act paints with
        let s = match &a.op {
            Op::Paint { cl, text } => Some((m.sess[*cl].clone(), text.clone())),
            Op::PaintRaw { lit, regs, cur, style, text, .. } => {
                Some((Sess { clip: clip_of(*lit, regs), cur: cursor_of(cur), style: style_of(*style), reg: *style }, text.clone()))
            }
            _ => None,
        };
        let clear = match &a.op {
            Op::Clear { cl } => Some(m.sess[*cl].clip),
            Op::ClearRaw { lit, regs } => Some(clip_of(*lit, regs)),
            _ => None,
        };
        if clear.is_some() || matches!(a.op, Op::Dirt { .. } | Op::Demo { .. }) {
            flush(&mut todo, &mut fb, &m, &mut r, i)?;
        }
        step(&mut m, i, &a.op);
        digests.push(state(&m));
        if let Some((s, text)) = s {
            let end = match &a.op {
                Op::Paint { cl, .. } => m.sess[*cl].cur,
                _ => cursor_of(&[m.last.x, m.last.y, m.last.lh]),
            };
            for clip in cuts(&mut r, &s.clip) {
                todo.push(Strip { clip, cur: s.cur, style: s.style, text: text.clone(), act: i, end });
            }
        }
        if let Some(c) = clear {
            for c in cuts(&mut r, &c) {
                lib(|| clear_region(&mut fb, c));
            }
            flush(&mut todo, &mut fb, &m, &mut r, i)?;
        }
        if matches!(a.op, Op::Dirt { .. } | Op::Demo { .. }) {
            fb.copy_from_slice(&m.fb[..]);
        }
    }
    flush(&mut todo, &mut fb, &m, &mut r, t.acts.len().saturating_sub(1))
}

thread_local!(
    /// Basic blocks executed so far (set by ssim's build)
    pub static CLOCK: Cell<Option<fn() -> u64>> = const { Cell::new(None) }
);
/// What a call may take whatever its registers hold, and for each character, in basic blocks
const CALL: u64 = 8_000_000;
const PER_CHAR: u64 = 50_000;
/// A call against the sum of its parts
const TIMES: u64 = 16;
const SLACK: u64 = 50_000;

/// On a processor whose clock counts basic blocks: a call takes no longer than its size allows
fn c26(rf: &Ref, t: &Trace, p: &mut Probes, digests: &mut Vec<u64>) -> Result<(), Violation> {
    let clock = CLOCK.with(|c| c.get()).expect("C26 needs the build with the clock");
    let timed = |f: &mut dyn FnMut()| {
        lib(|| {
            let t = clock();
            f();
            clock() - t
        })
    };
    let mut m = Real::new(t);
    for (i, a) in t.acts.iter().enumerate() {
        AT.with(|a| a.set(i));
        // Session or message that this act paints with
        let s = match &a.op {
            Op::Paint { cl, text } => Some((m.sess[*cl].clone(), text)),
            Op::PaintRaw { lit, regs, cur, style, text, .. } => {
                Some((Sess { clip: clip_of(*lit, regs), cur: cursor_of(cur), style: style_of(*style), reg: *style }, text))
            }
            _ => None,
        };
        if let Some((mut s, text)) = s {
            let mut fb = m.fb.clone();
            let mut c = s.cur;
            let whole = with_text(text, |x| timed(&mut || paint_str(&mut m.fb, s.clip, &mut c, s.style, x)));
            p.0[model::BLOCKS] += whole;
            if let Op::Paint { cl, .. } = &a.op {
                m.sess[*cl].cur = c;
            } else {
                m.last = cur_of(&c);
            }
            digests.push(state(&m));
            digests.push(whole);
            let n = text.len() as u64;
            if whole > CALL + n * PER_CHAR {
                return bad("time", i, format!("painting {} characters took {} steps", n, whole));
            }
            if n > 100 {
                p.0[model::LONG_TIMED] += 1;
                // The same in parts of 40 glyphs
                let (mut parts, mut from, mut to) = (0, 0, 0);
                let toks = rf.toks(latin_of(s.reg), text);
                for (k, t) in toks.iter().enumerate() {
                    to += t.chars();
                    if k % 40 == 39 || k + 1 == toks.len() {
                        parts += with_text(&text[from..to], |x| timed(&mut || paint_str(&mut fb, s.clip, &mut s.cur, s.style, x)));
                        from = to;
                    }
                }
                if whole > TIMES * parts + SLACK {
                    return bad("growth", i, format!("painting {} characters took {} steps, in short parts one after the other {}", n, whole, parts));
                }
            }
            continue;
        }
        let clear = match &a.op {
            Op::Clear { cl } => Some(m.sess[*cl].clip),
            Op::ClearRaw { lit, regs } => Some(clip_of(*lit, regs)),
            _ => None,
        };
        let whole = match clear {
            Some(c) => timed(&mut || clear_region(&mut m.fb, c)),
            None => {
                let before = clock();
                m.apply(&a.op);
                match &a.op {
                    Op::Dirt { .. } => 0,
                    _ => clock() - before,
                }
            }
        };
        digests.push(state(&m));
        digests.push(whole);
        p.0[model::BLOCKS] += whole;
        if whole > CALL {
            return bad("time", i, format!("{:?} took {} steps", a.op, whole));
        }
        if let Some(c) = clear.filter(|c| c.min.y < c.max.y && c.max.y <= model::H as usize) {
            let mut parts = 0;
            for y in (c.min.y..c.max.y).step_by(8) {
                let r = ClipRect { min: Pt { x: c.min.x, y }, max: Pt { x: c.max.x, y: c.max.y.min(y + 8) } };
                parts += timed(&mut || clear_region(&mut m.fb, r));
            }
            if whole > TIMES * parts + SLACK {
                return bad("growth", i, format!("clearing {:?} took {} steps, in strips {}", c, whole, parts));
            }
        }
    }
    Ok(())
}

/// For the fault statistics: acts that change the frame buffer
pub fn effective(a: &Act) -> bool {
    !matches!(a.op, Op::Style { .. } | Op::Restart { .. } | Op::Home { .. } | Op::Seek { .. } | Op::Clip { .. })
}
