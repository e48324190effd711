//! The simulator: painters, a network and a display server as a discrete-event
//! simulation. One PRNG decides workload, delays, faults and crashes. The
//! result is the list of operations in the order in which the display performs
//! them, with the faults already applied.

use crate::model::Rect;
use crate::reffont::{latin_of, Ref, F};
use crate::rng::{run_seed, Rng};
use crate::text::{self, Atoms, Mix};
use crate::trace::{Act, Client, Op, Regs, Trace};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};

pub const FAULT_NAMES: [&str; 14] = [
    "message_lost", "message_duplicated", "message_reordered", "message_delayed", "register_bit_flipped",
    "corners_swapped", "text_damaged", "painter_partitioned", "painter_crash_restart", "painter_stalled",
    "display_crash_dirty_buffer", "display_crash_during_recovery", "retransmission", "duplicate_discarded",
];
#[derive(Clone, Default)]
pub struct Faults(pub [u64; FAULT_NAMES.len()]);
impl Faults {
    fn hit(&mut self, i: usize) {
        self.0[i] += 1;
    }
    pub fn merge(&mut self, o: &Faults) {
        for i in 0..self.0.len() {
            self.0[i] += o.0[i];
        }
    }
    pub fn total(&self) -> u64 {
        self.0.iter().sum()
    }
}

pub struct Gen<'a> {
    pub rf: &'a Ref,
    pub atoms: &'a Atoms,
}

const W: u64 = 336;
const H: u64 = 536;

fn near(r: &mut Rng, v: u64, d: u64) -> u64 {
    (v + r.range(0, 2 * d)).saturating_sub(d)
}

/// A clip rect on the screen, corners in any order
pub fn clip(r: &mut Rng) -> Regs {
    let (mut x0, mut y0, mut x1, mut y1);
    match r.below(12) {
        0 => return [0, 0, W, H],
        1 => return [6, 6, W - 6, H - 6],
        2 | 3 => {
            // narrow
            let w = r.range(1, 44);
            x0 = r.range(0, W - w);
            if r.pct(25) {
                x0 = W - w;
            }
            x1 = x0 + w;
            y0 = r.range(0, H - 1);
            y1 = r.range(y0 + 1, H);
        }
        4 => {
            // short
            let h = r.range(1, 44);
            y0 = r.range(0, H - h);
            y1 = y0 + h;
            x0 = r.range(0, W - 1);
            x1 = r.range(x0 + 1, W);
        }
        5 | 6 => {
            // edges near word boundaries
            x0 = near(r, 32 * r.clone().range(0, 9), 1);
            r.u64();
            x1 = near(r, 32 * r.clone().range(1, 10), 1);
            r.u64();
            y0 = r.range(0, H);
            y1 = r.range(0, H);
        }
        7 => {
            // touching the screen's edges
            x0 = if r.pct(50) { 0 } else { r.range(0, W - 1) };
            x1 = if r.pct(60) { W } else { r.range(x0 + 1, W) };
            y0 = if r.pct(50) { 0 } else { r.range(0, H - 1) };
            y1 = if r.pct(60) { H } else { r.range(y0 + 1, H) };
        }
        8 => {
            // within one word
            let w = r.range(0, 10) * 32;
            x0 = w + r.range(0, 31).min(W - w - 1);
            x1 = (w + r.range(0, 32)).min(W);
            y0 = r.range(0, H - 1);
            y1 = r.range(y0 + 1, (y0 + 60).min(H));
        }
        _ => {
            x0 = r.range(0, W - 1);
            x1 = r.range(x0 + 1, W);
            y0 = r.range(0, H - 1);
            y1 = r.range(y0 + 1, H);
            if r.pct(60) {
                // roomy
                x1 = W.min(x0.max(40) + 100 + r.range(0, W));
                x0 = x0.min(x1 - 60);
                y1 = H.min(y1 + 60);
            }
        }
    }
    x0 = x0.min(W);
    x1 = x1.min(W);
    y0 = y0.min(H);
    y1 = y1.min(H);
    if x0 == x1 {
        if x1 < W {
            x1 += 1
        } else {
            x0 -= 1
        }
    }
    if y0 == y1 {
        if y1 < H {
            y1 += 1
        } else {
            y0 -= 1
        }
    }
    if r.pct(15) {
        std::mem::swap(&mut x0, &mut x1);
    }
    if r.pct(15) {
        std::mem::swap(&mut y0, &mut y1);
    }
    [x0, y0, x1, y1]
}

/// A rect that should be ignored: empty, or reaching outside the screen
fn bad_clip(r: &mut Rng, small: bool) -> Regs {
    let mut c = clip(r);
    match r.below(5) {
        0 => c[2] = c[0],
        1 => c[3] = c[1],
        2 => c[2] = W + r.range(1, 70),
        3 => c[3] = H + r.range(1, 70),
        _ => {
            let v = r.u64() >> r.clone().range(0, 60);
            c[r.below(4) as usize] = if small { v >> 40 } else { v };
        }
    }
    c
}

/// A cursor position of interest for the clip rect
pub fn cursor(r: &mut Rng, c: &Regs, fresh: bool) -> [u64; 3] {
    let k = Rect::corners(*c);
    let x = match r.below(10) {
        0..=3 => k.x0,
        4 => near(r, k.x1, 40),
        5 => near(r, k.x0, 20),
        6 => near(r, 32 * r.clone().range(0, 10), 2),
        7 => r.range(0, W + 20),
        _ => r.range(k.x0, k.x1),
    };
    let y = match r.below(10) {
        0..=3 => k.y0,
        4 => near(r, k.y1, 40),
        5 => near(r, k.y0, 40),
        6 => r.range(0, H + 20),
        _ => r.range(k.y0, k.y1),
    };
    let lh = if fresh {
        0
    } else {
        match r.below(6) {
            0 => r.range(0, 60),
            1 => 24,
            2 => 30,
            3 => 32,
            _ => 0,
        }
    };
    [x, y, lh]
}

/// A cursor position, now and then one far outside (C09 compares with a 32-bit build, C05 has more of its own)
fn place(prop: &str, r: &mut Rng, c: &Regs) -> [u64; 3] {
    let mut k = cursor(r, c, prop == "C08");
    if prop != "C09" && r.pct(5) {
        let v = *r.pick(&[u64::MAX, u64::MAX, u64::MAX / 2, 1 << 32, u32::MAX as u64, 1 << 31, 1 << 16]);
        let i = r.below(if prop == "C08" { 2 } else { 3 }) as usize;
        k[i] = v.saturating_sub(r.below(200));
    }
    k
}

/// A style register; small: fits 32 bits
fn style(r: &mut Rng, small: bool) -> u64 {
    match r.below(20) {
        0 => 3 + r.range(0, 300),
        1 => {
            let v = r.u64() >> r.clone().range(0, 63);
            if small { v >> 32 } else { v }
        }
        _ => r.below(3),
    }
}

enum Ev {
    Tick(usize),
    Deliver { cl: usize, seq: u64, op: Op, note: &'static str },
    Ack { cl: usize, upto: u64 },
    Timeout { cl: usize, seq: u64, epoch: u32, rto: u64 },
    Crash(usize),
    Restart(usize),
    Part(usize, bool),
    Stall(usize, u64),
    DispCrash,
}

struct Cfg {
    lat: u64,
    jitter: u64,
    drop: u32,
    dup: u32,
    slow: u32,
    corrupt: u32,
    window: u64,
    rto: u64,
    reliable: bool, // exactly once, in order
    retry: bool,    // at least once
    bits: u64,
    faults_until: u64,
}

struct World<'a> {
    g: &'a Gen<'a>,
    r: Rng,
    now: u64,
    order: u64,
    q: BinaryHeap<Reverse<(u64, u64)>>,
    ev: BTreeMap<(u64, u64), Ev>,
    cfg: Cfg,
    f: Faults,
    acts: Vec<Act>,
    scripts: Vec<Vec<Op>>,
    up: Vec<bool>,
    cut_off: Vec<bool>,
    stalled_until: Vec<u64>,
    next: Vec<u64>,
    acked: Vec<u64>,
    epoch: Vec<u32>,
    expect: Vec<u64>,
    buffer: Vec<BTreeMap<u64, Op>>,
    got_ack: Vec<std::collections::BTreeSet<u64>>,
    last_delivered: Vec<u64>,
    crash_mid: bool,
}

impl<'a> World<'a> {
    fn at(&mut self, dt: u64, e: Ev) {
        self.order += 1;
        let k = (self.now + dt, self.order);
        self.q.push(Reverse(k));
        self.ev.insert(k, e);
    }
    fn faulty(&self) -> bool {
        self.now < self.cfg.faults_until
    }
    fn latency(&mut self) -> u64 {
        let mut d = self.cfg.lat + self.r.range(0, self.cfg.jitter);
        if self.faulty() && self.r.pct(self.cfg.slow) {
            self.f.hit(3);
            d += self.r.range(self.cfg.rto, 20 * self.cfg.rto);
        }
        d
    }

    fn send(&mut self, cl: usize, seq: u64) {
        let op = self.scripts[cl][seq as usize].clone();
        if self.cut_off[cl] || (self.faulty() && self.r.pct(self.cfg.drop)) {
            self.f.hit(0);
        } else {
            let (op, note) = self.corrupt(op.clone());
            let d = self.latency();
            self.at(d, Ev::Deliver { cl, seq, op, note });
        }
        if self.faulty() && self.r.pct(self.cfg.dup) {
            self.f.hit(1);
            for _ in 0..self.r.range(1, 2) {
                let d = self.latency();
                let (op, note) = self.corrupt(op.clone());
                self.at(d, Ev::Deliver { cl, seq, op, note });
            }
        }
        if self.cfg.reliable || self.cfg.retry {
            let (epoch, rto) = (self.epoch[cl], self.cfg.rto);
            self.at(rto, Ev::Timeout { cl, seq, epoch, rto });
        }
    }

    fn corrupt(&mut self, mut op: Op) -> (Op, &'static str) {
        if !self.faulty() || !self.r.pct(self.cfg.corrupt) {
            return (op, "");
        }
        let bits = self.cfg.bits;
        let r = &mut self.r;
        let mut note = "";
        match &mut op {
            Op::Style { reg, .. } => {
                *reg ^= 1 << r.below(bits);
                note = "bit flipped";
                self.f.hit(4);
            }
            Op::Seek { cur, .. } => {
                cur[r.below(3) as usize] ^= 1 << r.clone().below(bits);
                r.u64();
                note = "bit flipped";
                self.f.hit(4);
            }
            Op::Clip { regs, .. } | Op::ClearRaw { regs, .. } => {
                if r.pct(30) {
                    regs.swap(0, 2);
                    note = "corners swapped";
                    self.f.hit(5);
                } else {
                    regs[r.below(4) as usize] ^= 1 << r.clone().below(bits);
                    r.u64();
                    note = "bit flipped";
                    self.f.hit(4);
                }
            }
            Op::PaintRaw { regs, cur, style, text, .. } => match r.below(4) {
                0 => {
                    regs[r.below(4) as usize] ^= 1 << r.clone().below(bits);
                    r.u64();
                    note = "bit flipped";
                    self.f.hit(4);
                }
                1 => {
                    let i = r.below(4) as usize;
                    if i == 3 {
                        *style ^= 1 << r.below(bits)
                    } else {
                        cur[i] ^= 1 << r.below(bits)
                    }
                    note = "bit flipped";
                    self.f.hit(4);
                }
                2 => {
                    regs.swap(1, 3);
                    note = "corners swapped";
                    self.f.hit(5);
                }
                _ => {
                    damage(self.g, r, text);
                    note = "text damaged";
                    self.f.hit(6);
                }
            },
            Op::Paint { text, .. } => {
                damage(self.g, r, text);
                note = "text damaged";
                self.f.hit(6);
            }
            _ => {}
        }
        (op, note)
    }

    fn apply(&mut self, op: Op, note: &'static str) {
        let t = self.now;
        self.acts.push(Act { t, op, note });
    }

    fn run(&mut self) {
        let mut steps = 0;
        while let Some(Reverse(k)) = self.q.pop() {
            steps += 1;
            if steps > 4000 || self.acts.len() > 400 {
                break;
            }
            self.now = k.0;
            let e = self.ev.remove(&k).unwrap();
            match e {
                Ev::Tick(cl) => {
                    if self.up[cl] && self.stalled_until[cl] <= self.now {
                        let lim = if self.cfg.reliable { self.acked[cl] + self.cfg.window } else { u64::MAX };
                        if self.next[cl] < lim.min(self.scripts[cl].len() as u64) {
                            let s = self.next[cl];
                            self.next[cl] += 1;
                            self.send(cl, s);
                        }
                    }
                    if self.next[cl] < self.scripts[cl].len() as u64 {
                        let think = self.r.range(1, 4 * self.cfg.lat + 10);
                        self.at(think, Ev::Tick(cl));
                    }
                }
                Ev::Deliver { cl, seq, op, note } => {
                    if seq < self.last_delivered[cl] {
                        self.f.hit(2);
                    }
                    self.last_delivered[cl] = self.last_delivered[cl].max(seq);
                    if !self.cfg.reliable {
                        self.apply(op, note);
                        if self.cfg.retry {
                            self.ack(cl, seq);
                        }
                        continue;
                    }
                    if seq < self.expect[cl] || self.buffer[cl].contains_key(&seq) {
                        self.f.hit(13);
                    } else {
                        self.buffer[cl].insert(seq, op);
                        while let Some(op) = {
                            let e = self.expect[cl];
                            self.buffer[cl].remove(&e)
                        } {
                            self.apply(op, "");
                            self.expect[cl] += 1;
                        }
                    }
                    let upto = self.expect[cl];
                    self.ack(cl, upto);
                }
                Ev::Ack { cl, upto } => {
                    if !self.up[cl] {
                        continue;
                    }
                    if self.cfg.reliable {
                        self.acked[cl] = self.acked[cl].max(upto);
                    } else {
                        self.got_ack[cl].insert(upto);
                    }
                }
                Ev::Timeout { cl, seq, epoch, rto } => {
                    let done = if self.cfg.reliable { seq < self.acked[cl] } else { self.got_ack[cl].contains(&seq) };
                    if done || !self.up[cl] || epoch != self.epoch[cl] {
                        continue;
                    }
                    self.f.hit(12);
                    let op = self.scripts[cl][seq as usize].clone();
                    if self.cut_off[cl] || (self.faulty() && self.r.pct(self.cfg.drop)) {
                        self.f.hit(0);
                    } else {
                        let d = self.latency();
                        self.at(d, Ev::Deliver { cl, seq, op, note: "retransmitted" });
                    }
                    let rto = (rto * 2).min(64 * self.cfg.rto);
                    self.at(rto, Ev::Timeout { cl, seq, epoch, rto });
                }
                Ev::Crash(cl) => {
                    if self.up[cl] {
                        self.f.hit(8);
                        self.up[cl] = false;
                        self.epoch[cl] += 1;
                        let d = self.r.range(self.cfg.rto, 20 * self.cfg.rto);
                        self.at(d, Ev::Restart(cl));
                    }
                }
                Ev::Restart(cl) => {
                    // Only what was acknowledged survived; the display knows the rest
                    self.up[cl] = true;
                    if self.cfg.reliable {
                        self.next[cl] = self.acked[cl];
                    }
                    if !self.scripts[cl].is_empty() {
                        self.apply(Op::Restart { cl }, "painter restarted");
                    }
                    self.at(1, Ev::Tick(cl));
                }
                Ev::Part(cl, on) => {
                    if on {
                        self.f.hit(7);
                        let d = self.r.range(self.cfg.rto, 30 * self.cfg.rto);
                        self.at(d, Ev::Part(cl, false));
                    }
                    self.cut_off[cl] = on;
                }
                Ev::Stall(cl, d) => {
                    self.f.hit(9);
                    self.stalled_until[cl] = self.now + d;
                    self.at(d, Ev::Tick(cl));
                }
                Ev::DispCrash => {
                    self.f.hit(10);
                    let kind = self.r.below(7);
                    let seed = self.r.u64();
                    let mut mid = 0;
                    if self.crash_mid && self.r.pct(40) {
                        mid = self.r.range(1, 20);
                        self.f.hit(11);
                    }
                    self.apply(Op::Dirt { kind, seed, mid }, "display crashed");
                }
            }
        }
    }

    fn ack(&mut self, cl: usize, upto: u64) {
        if self.cut_off[cl] || (self.faulty() && self.r.pct(self.cfg.drop)) {
            self.f.hit(0);
            return;
        }
        let d = self.latency();
        self.at(d, Ev::Ack { cl, upto });
    }
}

fn damage(g: &Gen, r: &mut Rng, text: &mut Vec<char>) {
    match r.below(4) {
        0 => {
            let n = r.below(text.len() as u64 + 1) as usize;
            text.truncate(n);
        }
        1 => {
            let n = r.below(text.len() as u64 + 1) as usize;
            text.drain(..n);
        }
        2 => {
            if !text.is_empty() {
                let i = r.below(text.len() as u64) as usize;
                if let Some(c) = char::from_u32(text[i] as u32 ^ (1 << r.below(20))) {
                    text[i] = c;
                }
            }
        }
        _ => {
            let mix = Atoms::mix(r);
            let n = r.usize(1, 4);
            let t = g.atoms.text(g.rf, r, &mix, n);
            let i = r.below(text.len() as u64 + 1) as usize;
            text.splice(i..i, t);
        }
    }
    while [F::Small, F::Regular, F::Bold].iter().any(|f| g.rf.text_collides(*f, text)) {
        let n = text.len() / 2;
        text.truncate(n);
    }
}

/// Split the screen into n disjoint windows
fn windows(r: &mut Rng, n: usize) -> Vec<Regs> {
    let mut v: Vec<Regs> = vec![[0, 0, W, H]];
    while v.len() < n {
        let i = (0..v.len()).max_by_key(|i| (v[*i][2] - v[*i][0]) * (v[*i][3] - v[*i][1])).unwrap();
        let c = v.swap_remove(i);
        if (c[2] - c[0] > 60 && r.pct(60)) || c[3] - c[1] < 8 {
            let m = r.range(c[0] + 1, c[2] - 1);
            let m = if r.pct(30) { (m / 32 * 32).clamp(c[0] + 1, c[2] - 1) } else { m };
            v.push([c[0], c[1], m, c[3]]);
            v.push([m, c[1], c[2], c[3]]);
        } else {
            let m = r.range(c[1] + 1, c[3] - 1);
            v.push([c[0], c[1], c[2], m]);
            v.push([c[0], m, c[2], c[3]]);
        }
    }
    v
}

/// From this number of the run on every other run has such a text
pub const LONG_RUNS: u64 = 1 << 40;

/// Decide one run
pub fn generate(g: &Gen, prop: &str, batch_seed: u64, run: u64) -> (Trace, Faults) {
    let seed = run_seed(batch_seed, prop, run);
    let mut r = Rng::new(seed);
    if prop == "C20" {
        // The worlds of C04 and C01
        let (mut t, f) = generate(g, if r.pct(60) { "C04" } else { "C01" }, seed, 0);
        t.prop = prop.into();
        return (t, f);
    }
    let stream = match prop {
        "C02" | "C03" | "C07" | "C08" | "C15" => true,
        "C01" | "C21" | "C22" | "C23" => r.pct(40),
        _ => false,
    };
    let n = match prop {
        "C03" => r.usize(2, 5),
        "C05" | "C04" | "C26" => r.usize(1, 3),
        _ => r.usize(1, 4),
    };
    let rate = |r: &mut Rng, max: u64| if r.pct(60) { r.range(1, max) as u32 } else { 0 };
    let lat = r.range(1, 400);
    let cfg = Cfg {
        lat,
        jitter: if r.pct(70) { r.range(0, 3000) } else { 0 },
        drop: rate(&mut r, 30),
        dup: rate(&mut r, 40),
        slow: rate(&mut r, 15),
        corrupt: match prop {
            "C05" | "C26" => r.range(20, 90) as u32,
            "C04" | "C09" => rate(&mut r, 60),
            "C01" | "C22" | "C23" if !stream => rate(&mut r, 30),
            _ => 0,
        },
        window: r.range(1, 5),
        rto: 2 * lat + r.range(50, 4000),
        reliable: stream,
        retry: prop == "C06",
        bits: if prop == "C09" { 24 } else { 64 },
        faults_until: r.range(5_000, 120_000),
    };
    let crashes = stream && (prop == "C15" || r.pct(50));
    let mut w = World {
        g,
        r,
        now: 0,
        order: 0,
        q: BinaryHeap::new(),
        ev: BTreeMap::new(),
        cfg,
        f: Faults::default(),
        acts: vec![],
        scripts: vec![],
        up: vec![true; n],
        cut_off: vec![false; n],
        stalled_until: vec![0; n],
        next: vec![0; n],
        acked: vec![0; n],
        epoch: vec![0; n],
        expect: vec![0; n],
        buffer: vec![BTreeMap::new(); n],
        got_ack: vec![Default::default(); n],
        last_delivered: vec![0; n],
        crash_mid: prop == "C07",
    };
    let r = &mut w.r;
    let mut mix = Atoms::mix(r);
    if prop == "C21" {
        // Letters with accents, in one and in several characters, and emoji with variation selectors
        for p in [1, 2, 3, 4] {
            mix.0[p] += r.range(1, 12);
        }
    }
    let knob = r.below(4);
    let fb0 = (r.below(7), r.u64());
    let exclusive = prop == "C07" || (prop == "C03" && knob % 2 == 1);
    let wins = if exclusive {
        windows(r, n)
    } else {
        let shared = r.pct(30).then(|| clip(r));
        (0..n).map(|_| shared.unwrap_or_else(|| clip(r))).collect()
    };
    let mut clients = vec![];
    let mut id = 0;
    for cl in 0..n {
        let c = Client {
            clip: wins[cl],
            style: style(r, prop == "C09"),
            cur: if r.pct(50) { None } else { Some(cursor(r, &wins[cl], prop == "C08")) },
        };
        let s = script(g, prop, r, &mix, cl, &c, exclusive, &mut id);
        clients.push(c);
        w.scripts.push(s);
    }
    // Now and then a text of tens of thousands of characters
    if matches!(prop, "C01" | "C02" | "C05" | "C09") && w.r.below(if run >= LONG_RUNS { 2 } else { 1200 }) == 0 {
        let cl = w.r.usize(0, n - 1);
        let t = if prop == "C05" && w.r.pct(60) { text::plain_long(g.atoms, g.rf, &mut w.r, &mix) } else { text::long(g.atoms, g.rf, &mut w.r, &mix) };
        let i = w.r.usize(0, w.scripts[cl].len());
        w.scripts[cl].insert(i, Op::Paint { cl, text: t });
    }
    if prop == "C26" && w.r.pct(15) {
        let cl = w.r.usize(0, n - 1);
        let t = text::plain_long(g.atoms, g.rf, &mut w.r, &mix);
        let i = w.r.usize(0, w.scripts[cl].len());
        w.scripts[cl].insert(i, Op::Paint { cl, text: t });
    }
    for cl in 0..n {
        let t = w.r.range(0, 5000);
        w.at(t, Ev::Tick(cl));
        if crashes {
            for _ in 0..w.r.range(0, 3) {
                let t = w.r.range(0, 20_000);
                w.at(t, Ev::Crash(cl));
            }
        }
        if w.r.pct(25) {
            let t = w.r.range(0, 20_000);
            w.at(t, Ev::Part(cl, true));
        }
        if w.r.pct(25) {
            let t = w.r.range(0, 10_000);
            let d = w.r.range(100, 50_000);
            w.at(t, Ev::Stall(cl, d));
        }
    }
    let disp = match prop {
        "C07" => w.r.range(1, 4),
        "C01" | "C04" | "C09" | "C22" => w.r.range(0, 3).saturating_sub(1),
        _ => 0,
    };
    for _ in 0..disp {
        let t = w.r.range(0, 30_000);
        w.at(t, Ev::DispCrash);
    }
    w.run();
    let acts = std::mem::take(&mut w.acts);
    let mut t = Trace { prop: prop.into(), seed, clients, fb0, knob, acts };
    if prop == "C22" {
        shrink_layout(&mut w.r, &mut t);
        let (x, y) = crate::exec::room(&t);
        let pick = |r: &mut Rng, (lo, hi): (i64, i64)| match r.below(4) {
            0 => lo,
            1 => hi,
            _ => lo + r.below((hi - lo) as u64 + 1) as i64,
        };
        t.knob = crate::exec::shift_knob(pick(&mut w.r, x), pick(&mut w.r, y));
    }
    (t, w.f)
}

/// Scale windows and cursors down into a part of the screen, so that there is room to move them
fn shrink_layout(r: &mut Rng, t: &mut Trace) {
    let side = |r: &mut Rng, full: u64| {
        let room = r.range(0, *r.clone().pick(&[3, 40, 40, full - 40]));
        (r.range(0, room), full - room)
    };
    let (ax, bw) = side(r, W);
    let (ay, bh) = side(r, H);
    let x = |v: &mut u64| if *v <= 2 * W { *v = ax + *v * bw / W };
    let y = |v: &mut u64| if *v <= 2 * H { *v = ay + *v * bh / H };
    let regs = |c: &mut Regs| {
        if c[0].max(c[2]) <= W && c[1].max(c[3]) <= H {
            c.iter_mut().enumerate().for_each(|(i, v)| if i % 2 == 0 { x(v) } else { y(v) });
        }
    };
    for c in &mut t.clients {
        regs(&mut c.clip);
        if let Some(c) = &mut c.cur {
            x(&mut c[0]);
            y(&mut c[1]);
        }
    }
    for a in &mut t.acts {
        match &mut a.op {
            Op::Clip { regs: c, .. } | Op::ClearRaw { regs: c, .. } => regs(c),
            Op::Seek { cur, .. } => {
                x(&mut cur[0]);
                y(&mut cur[1]);
            }
            Op::PaintRaw { regs: c, cur, .. } => {
                regs(c);
                x(&mut cur[0]);
                y(&mut cur[1]);
            }
            _ => {}
        }
    }
}

fn pieces(g: &Gen, r: &mut Rng, mix: &Mix, st: u64) -> Vec<Vec<char>> {
    let n = text::len(r);
    let t = g.atoms.text(g.rf, r, mix, n);
    let every = *r.pick(&[0, 5, 20, 50, 100]);
    let mut v = text::cut(g.rf, r, latin_of(st), &t, every);
    v.truncate(60);
    v
}

fn script(g: &Gen, prop: &str, r: &mut Rng, mix: &Mix, cl: usize, c: &Client, exclusive: bool, id: &mut u64) -> Vec<Op> {
    let mut s = vec![];
    let mut st = c.style;
    let mut win = c.clip;
    let steps = r.usize(1, 8);
    // C09 compares with a 32-bit build
    let small = prop == "C09";
    let whole = |g: &Gen, r: &mut Rng| {
        let n = text::len(r);
        g.atoms.text(g.rf, r, mix, n)
    };
    let raw_clip = |r: &mut Rng, win: Regs| match r.below(10) {
        0..=3 => win,
        4 if prop != "C06" => bad_clip(r, small),
        _ => clip(r),
    };
    for _ in 0..steps {
        match prop {
            "C02" | "C03" | "C07" | "C08" | "C15" => {
                for p in pieces(g, r, mix, st) {
                    s.push(Op::Paint { cl, text: p });
                }
                match r.below(10) {
                    0..=3 => {
                        st = style(r, small);
                        s.push(Op::Style { cl, reg: st });
                    }
                    4 => s.push(Op::Seek { cl, cur: place(prop, r, &win) }),
                    5 => s.push(Op::Home { cl }),
                    6 if !exclusive => {
                        win = clip(r);
                        s.push(Op::Clip { cl, regs: win });
                    }
                    7 | 8 if exclusive => s.push(Op::Clear { cl }),
                    _ => {}
                }
            }
            "C06" => {
                let regs = raw_clip(r, win);
                s.push(Op::PaintRaw { id: *id, lit: false, regs, cur: place(prop, r, &regs), style: style(r, small), text: whole(g, r) });
                *id += 1;
            }
            "C04" | "C05" | "C26" => {
                let regs = raw_clip(r, win);
                let lit = r.pct(15);
                match r.below(10) {
                    0..=2 => s.push(Op::ClearRaw { lit, regs }),
                    3 => s.push(Op::Paint { cl, text: whole(g, r) }),
                    4 if r.pct(50) => s.push(Op::Clear { cl }),
                    4 if matches!(prop, "C05" | "C26") && r.pct(40) => s.push(Op::Demo { k: r.below(3) }),
                    4 => s.push(Op::Seek { cl, cur: place(prop, r, &win) }),
                    5 => {
                        win = clip(r);
                        s.push(Op::Clip { cl, regs: win });
                    }
                    _ => {
                        let mut cur = place(prop, r, &regs);
                        if matches!(prop, "C05" | "C26") && r.pct(25) {
                            let v = *r.pick(&[u64::MAX, u64::MAX - 1, u64::MAX / 2, 1 << 32, u32::MAX as u64, u32::MAX as u64 - 20, 1 << 31]);
                            cur[r.below(3) as usize] = v.saturating_sub(r.clone().below(40));
                        }
                        s.push(Op::PaintRaw { id: *id, lit, regs, cur, style: style(r, small), text: whole(g, r) });
                        *id += 1;
                    }
                }
            }
            _ => {
                // C01, C09: everything
                match r.below(20) {
                    0..=9 => {
                        for p in pieces(g, r, mix, st) {
                            s.push(Op::Paint { cl, text: p });
                        }
                    }
                    10 => {
                        st = style(r, small);
                        s.push(Op::Style { cl, reg: st });
                    }
                    11 => s.push(Op::Seek { cl, cur: place(prop, r, &win) }),
                    12 => s.push(Op::Home { cl }),
                    13 => {
                        win = clip(r);
                        s.push(Op::Clip { cl, regs: win });
                    }
                    14 => s.push(Op::Clear { cl }),
                    16 if small => s.push(Op::Demo { k: r.below(3) }),
                    15 | 16 => s.push(Op::ClearRaw { lit: false, regs: raw_clip(r, win) }),
                    _ => {
                        let regs = raw_clip(r, win);
                        s.push(Op::PaintRaw { id: *id, lit: false, regs, cur: place(prop, r, &regs), style: style(r, small), text: whole(g, r) });
                        *id += 1;
                    }
                }
            }
        }
    }
    s
}
