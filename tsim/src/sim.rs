//! One run: every painter alone, each in a fresh process; then all of them on
//! the simulated machine, in another fresh process; the same must come out.

use blitstr::{glyph_to_height_hint, ClipRect, Cursor, GlyphStyle};
use dsim::exec::{cur_of, Real};
use dsim::model::{Cur, N};
use dsim::trace::{Act, Client, Op};
use std::fmt::Write;
use std::time::Instant;

pub const NF: usize = 8;
pub const MAX_CALLS: usize = 16;
const MAXEV: usize = 20000;

#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Event {
    pub f: u32,
    pub op: u32,
    pub k: u32,
    pub kind: u32,
    pub a: u32,
    pub b: u32,
}

#[repr(C)]
pub struct Out {
    status: u32,
    stuck_f: u32,
    stuck_op: u32,
    nev: u32,
    points: u64,
    shared: u64,
    pub switches: u64,
    in_call: u64,
    irqs: u64,
    stops: u64,
    delayed: u64,
    drains: u64,
    forced: u64,
    pub place: u64,
    ev: [Event; MAXEV],
}
impl Out {
    pub fn counts(&self) -> Vec<(&'static str, u64)> {
        vec![
            ("points", self.points),
            ("points_at_shared_memory", self.shared),
            ("switches", self.switches),
            ("switches_inside_a_call", self.in_call),
            ("interrupts", self.irqs),
            ("threads_stopped_for_ever", self.stops),
            ("stores_delayed", self.delayed),
            ("delayed_stores_made_visible", self.drains),
            ("switches_forced_for_fairness", self.forced),
        ]
    }
}

#[repr(C)]
struct Cfg {
    seed: u64,
    n: u32,
    replay: u32,
    weak: u32,
    p_shared: u32,
    p_any: u32,
    p_drain: u32,
    p_stop: u32,
    p_edge: u32,
    prio: [u32; NF],
    nev: u32,
    ev: *const Event,
}

/// What a call left behind
#[repr(C)]
#[derive(Clone, Copy)]
struct Left {
    over: u32,
    panicked: u32,
    cur: [u64; 3],
    small: [usize; 13],
    fb: [u32; N],
}

extern "C" {
    fn sim_run(c: *const Cfg, calls: *const u32, out: *mut Out, f: extern "C" fn(u32));
    fn sim_op(op: u32, left: u32);
    fn sim_op_end();
    fn sim_leave();
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(rc: i32) -> !;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn alarm(seconds: u32) -> u32;
    fn setrlimit(what: i32, l: *const [u64; 2]) -> i32;
}

#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Rates {
    pub weak: u32,
    pub shared: u32,
    pub any: u32,
    pub drain: u32,
    pub stop: u32,
    pub edge: u32,
}

/// A run; events: the scheduler's decisions, for replays. The calls are the
/// acts of a dsim trace, with painter * 16 + number of the call as the time.
#[derive(Clone)]
pub struct Trace {
    pub base: dsim::trace::Trace,
    pub prio: Vec<u32>,
    pub rates: Rates,
    pub events: Vec<Event>,
}

impl Trace {
    pub fn show(&self) -> String {
        let mut s = self.base.show();
        let r = &self.rates;
        let _ = writeln!(s, "!tsim 1");
        let _ = writeln!(s, "!rates {} {} {} {} {} {}", r.weak, r.shared, r.any, r.drain, r.stop, r.edge);
        let p: Vec<String> = self.prio.iter().map(|p| p.to_string()).collect();
        let _ = writeln!(s, "!prio {}", p.join(" "));
        for e in &self.events {
            let what = match e.kind {
                0 => format!("painter {} goes on", e.a),
                1 => format!("a delayed store of painter {} becomes visible", e.a),
                _ => "this painter stops for ever".into(),
            };
            let at = if e.f == 255 { "nobody runs".into() } else { format!("painter {} in call {} at point {}", e.f, e.op, e.k) };
            let _ = writeln!(s, "!e {} {} {} {} {} {}  # {}: {}", e.f, e.op, e.k, e.kind, e.a, e.b, at, what);
        }
        s
    }
    pub fn parse(text: &str) -> Option<Trace> {
        let base: String = text.lines().filter(|l| !l.starts_with('!')).map(|l| format!("{}\n", l)).collect();
        let base = dsim::trace::Trace::parse(&base)?;
        let mut t = Trace { prio: vec![0; base.clients.len()], base, rates: Rates::default(), events: vec![] };
        for l in text.lines().filter(|l| l.starts_with('!')) {
            let l = l.split('#').next()?;
            let (head, rest) = l.split_once(' ')?;
            let v: Vec<u32> = rest.split_whitespace().map(|x| x.parse().ok()).collect::<Option<_>>()?;
            match head {
                "!tsim" => {}
                "!rates" => t.rates = Rates { weak: v[0], shared: v[1], any: v[2], drain: v[3], stop: v[4], edge: v[5] },
                "!prio" => t.prio = v,
                "!e" => t.events.push(Event { f: v[0], op: v[1], k: v[2], kind: v[3], a: v[4], b: v[5] }),
                _ => return None,
            }
        }
        if t.prio.len() != t.base.clients.len() || t.prio.len() > NF || t.base.acts.iter().any(|a| owner(a) >= t.prio.len()) {
            return None;
        }
        Some(t)
    }
}

pub enum Verdict {
    Held,
    Violated(String, String),
}

struct Painter {
    acts: Vec<(u32, Op)>,
    real: Real,
}

// The painters of the run this (forked) process makes, and where the results go
static mut PAINTERS: Vec<Painter> = Vec::new();
static mut LEFT: *mut Left = std::ptr::null_mut();

#[allow(static_mut_refs)]
extern "C" fn painter(f: u32) {
    let p = unsafe { &mut PAINTERS[f as usize] };
    for (n, (id, op)) in p.acts.iter().enumerate() {
        let left = unsafe { &mut *LEFT.add(f as usize * MAX_CALLS + *id as usize) };
        let real = &mut p.real;
        unsafe { sim_op(*id, (p.acts.len() - n - 1) as u32) };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            real.apply(op);
            // The small functions, too
            let (a, b) = (ClipRect::full_screen(), ClipRect::padded_screen());
            let s = GlyphStyle::from(*id as usize);
            let n: usize = s.into();
            let c = Cursor::from_top_left_of(b);
            [a.min.x, a.min.y, a.max.x, a.max.y, b.min.x, b.min.y, b.max.x, b.max.y, n, glyph_to_height_hint(s), c.pt.x, c.pt.y, c.line_height]
        }));
        unsafe { sim_op_end() };
        left.panicked = r.is_err() as u32;
        let c: Cur = match op {
            Op::PaintRaw { .. } => p.real.last,
            _ => op.client().map_or(Cur { x: 0, y: 0, lh: 0 }, |cl| cur_of(&p.real.sess[cl].cur)),
        };
        left.cur = [c.x, c.y, c.lh];
        if let Ok(small) = &r {
            left.small = *small;
        }
        left.fb.copy_from_slice(&p.real.fb[..]);
        left.over = 1;
        if r.is_err() {
            return;
        }
        unsafe { sim_leave() };
    }
}

fn shared<T>(n: usize) -> *mut T {
    let p = unsafe { mmap(std::ptr::null_mut(), n * std::mem::size_of::<T>(), 3, 0x21, -1, 0) };
    assert!(p as isize != -1, "no memory");
    p as *mut T
}

enum End {
    Over,
    Stuck(u32, u32),
    Died(i32),
}

pub struct Machine {
    out: *mut Out,
    alone_out: *mut Out,
    all: *mut Left,
    alone: *mut Left,
}

fn owner(a: &Act) -> usize {
    a.t as usize / MAX_CALLS
}
fn number(a: &Act) -> usize {
    a.t as usize % MAX_CALLS
}
pub fn when(owner: usize, number: usize) -> u64 {
    (owner * MAX_CALLS + number) as u64
}

impl Machine {
    pub fn new() -> Machine {
        Machine { out: shared(1), alone_out: shared(1), all: shared(NF * MAX_CALLS), alone: shared(NF * MAX_CALLS) }
    }
    pub fn stats(&self) -> &Out {
        unsafe { &*self.out }
    }
    pub fn events(&self) -> Vec<Event> {
        let o = self.stats();
        o.ev[..o.nev as usize].to_vec()
    }
    fn reset(&self, left: *mut Left) {
        for i in 0..NF * MAX_CALLS {
            unsafe { (*left.add(i)).over = 0 };
        }
    }

    /// The calls of some painters, in a process of their own
    #[allow(static_mut_refs)]
    fn child(&self, t: &Trace, only: Option<usize>, events: Option<&[Event]>, out: *mut Out, left: *mut Left) -> End {
        unsafe {
            (*out).status = 0;
            let pid = fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                setrlimit(0, &[10, 20]); // seconds of CPU time
                setrlimit(4, &[0, 0]);
                alarm(150); // should it block for ever where the machine cannot see it
                LEFT = left;
                let n = t.base.clients.len();
                for i in 0..n {
                    let mut b = t.base.clone();
                    b.fb0.1 = b.fb0.1.wrapping_add(i as u64 * 77);
                    let acts = if only.map_or(true, |o| o == i) {
                        t.base.acts.iter().filter(|a| owner(a) == i).map(|a| (number(a) as u32, a.op.clone())).collect()
                    } else {
                        vec![]
                    };
                    let real = Real::new(&b);
                    PAINTERS.push(Painter { acts, real });
                }
                let mut prio = [0; NF];
                prio[..n].copy_from_slice(&t.prio);
                let mut calls = [0u32; NF];
                for i in 0..n {
                    calls[i] = PAINTERS[i].acts.len() as u32;
                }
                let r = &t.rates;
                let ev = events.unwrap_or(&[]);
                let one = only.is_some();
                let z = |p: u32| if one { 0 } else { p };
                let cfg = Cfg {
                    seed: t.base.seed,
                    n: n as u32,
                    replay: events.is_some() as u32,
                    weak: z(r.weak),
                    p_shared: z(r.shared),
                    p_any: z(r.any),
                    p_drain: z(r.drain),
                    p_stop: z(r.stop),
                    p_edge: z(r.edge),
                    prio,
                    nev: ev.len() as u32,
                    ev: ev.as_ptr(),
                };
                sim_run(&cfg, calls.as_ptr(), out, painter);
                _exit(0);
            }
            let mut st = 0;
            while waitpid(pid, &mut st, 0) != pid {}
            match (st, (*out).status) {
                (0, 1) => End::Over,
                (0, 2) => End::Stuck((*out).stuck_f, (*out).stuck_op),
                _ => End::Died(st & 0x7f),
            }
        }
    }

    pub fn execute(&mut self, t: &Trace, events: Option<&[Event]>) -> Verdict {
        let bad = |class: &str, msg: String| Verdict::Violated(class.into(), msg);
        self.reset(self.all);
        self.reset(self.alone);
        let end = self.child(t, None, events, self.out, self.all);
        for i in 0..t.base.clients.len() {
            match self.child(t, Some(i), None, self.alone_out, self.alone) {
                End::Over => {}
                End::Stuck(_, op) => return bad("hang", format!("call {} of painter {} does not return, even alone", op, i)),
                End::Died(s) => return bad("died", format!("painter {} alone ends the process with signal {}", i, s)),
            }
        }
        match end {
            End::Over => {}
            End::Stuck(f, op) => return bad("hang", format!("call {} of painter {} does not return, and no other painter can go on", op, f)),
            End::Died(s) => return bad("died", format!("the process ends with signal {}; every painter alone is fine", s)),
        }
        for a in &t.base.acts {
            let (f, id) = (owner(a), number(a));
            let (x, y) = unsafe { (&*self.all.add(f * MAX_CALLS + id), &*self.alone.add(f * MAX_CALLS + id)) };
            if x.over == 0 {
                continue; // the painter was stopped
            }
            let who = format!("call {} of painter {}", id, f);
            if x.panicked == 1 {
                return bad("panic", format!("{} panics", who));
            }
            if y.over == 0 {
                return bad("panic", format!("{}: the painter alone does not get as far", who));
            }
            if x.fb != y.fb {
                let n: u32 = (0..N).map(|i| (x.fb[i] ^ y.fb[i]).count_ones()).sum();
                let i = (0..N).find(|i| x.fb[*i] != y.fb[*i]).unwrap();
                let b = (x.fb[i] ^ y.fb[i]).trailing_zeros() as usize;
                return bad("pixels", format!("{} leaves {} other pixels than alone, first at x={} y={}", who, n, i % 11 * 32 + b, i / 11));
            }
            if x.cur != y.cur {
                return bad("cursor", format!("{} leaves its cursor at {:?}, alone at {:?}", who, x.cur, y.cur));
            }
            if x.small != y.small {
                return bad("values", format!("after {} the screens, style and cursor made are {:?}, alone {:?}", who, x.small, y.small));
            }
        }
        Verdict::Held
    }
}

/// Drop calls, decisions and characters while the same kind of violation stays
pub fn shrink(mut t: Trace, class: &str, end: Instant) -> Trace {
    let mut m = Machine::new();
    let mut fails = |c: &Trace| matches!(m.execute(c, Some(&c.events)), Verdict::Violated(k, _) if k == class);
    if !fails(&t) {
        return t;
    }
    fn pass<T: Clone>(v: &[T], end: Instant, mut ok: impl FnMut(&[T]) -> bool) -> Vec<T> {
        let mut v = v.to_vec();
        let mut n = (v.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < v.len() && Instant::now() < end {
                let mut c = v[..i].to_vec();
                c.extend_from_slice(&v[(i + n).min(v.len())..]);
                if ok(&c) {
                    v = c;
                } else {
                    i += n;
                }
            }
            if n == 1 || Instant::now() >= end {
                return v;
            }
            n /= 2;
        }
    }
    for _ in 0..2 {
        let b = t.clone();
        t.base.acts = pass(&b.base.acts, end, |a| {
            let mut c = b.clone();
            c.base.acts = a.to_vec();
            fails(&c)
        });
        let b = t.clone();
        t.events = pass(&b.events, end, |e| {
            let mut c = b.clone();
            c.events = e.to_vec();
            fails(&c)
        });
        for i in 0..t.base.acts.len() {
            let b = t.clone();
            if let Op::Paint { text, .. } | Op::PaintRaw { text, .. } = &b.base.acts[i].op {
                let small = pass(text, end, |x| {
                    let mut c = b.clone();
                    if let Op::Paint { text, .. } | Op::PaintRaw { text, .. } = &mut c.base.acts[i].op {
                        *text = x.to_vec();
                    }
                    fails(&c)
                });
                if let Op::Paint { text, .. } | Op::PaintRaw { text, .. } = &mut t.base.acts[i].op {
                    *text = small;
                }
            }
        }
    }
    t
}

/// A painter without history
pub fn client(clip: [u64; 4], style: u64, cur: Option<[u64; 3]>) -> Client {
    Client { clip, style, cur }
}
