//! A run, after the simulator has decided it: the ordered list of what reached
//! the display. This is what gets executed, minimised, written and replayed.

use std::fmt::Write;

pub type Regs = [u64; 4];

#[derive(Clone, PartialEq, Debug)]
pub enum Op {
    /// Paint with the session's clip rect, style and cursor
    Paint { cl: usize, text: Vec<char> },
    Style { cl: usize, reg: u64 },
    /// New window, cursor to its top left
    Clip { cl: usize, regs: Regs },
    Seek { cl: usize, cur: [u64; 3] },
    Home { cl: usize },
    /// Clear the session's window
    Clear { cl: usize },
    /// Painter crashed and restarted: cursor rebuilt from its saved numbers
    Restart { cl: usize },
    /// Self-contained messages; lit: clip rect made field by field, not by ClipRect::new
    ClearRaw { lit: bool, regs: Regs },
    PaintRaw { id: u64, lit: bool, regs: Regs, cur: [u64; 3], style: u64, text: Vec<char> },
    Demo { k: u64 },
    /// Display crash: frame buffer left with other content; mid: a second
    /// crash after that many steps of recovery (C07)
    Dirt { kind: u64, seed: u64, mid: u64 },
}

#[derive(Clone, PartialEq, Debug)]
pub struct Act {
    pub t: u64, // simulated microseconds
    pub op: Op,
    pub note: &'static str,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Client {
    pub clip: Regs,
    pub style: u64,
    pub cur: Option<[u64; 3]>, // None: top left of the clip rect
}

#[derive(Clone, PartialEq, Debug)]
pub struct Trace {
    pub prop: String,
    pub seed: u64,
    pub clients: Vec<Client>,
    pub fb0: (u64, u64),
    pub knob: u64,
    pub acts: Vec<Act>,
}

fn hex(text: &[char]) -> String {
    if text.is_empty() {
        return "-".into();
    }
    text.iter().map(|c| format!("{:x}", *c as u32)).collect::<Vec<_>>().join(".")
}
fn nums(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

impl Op {
    pub fn client(&self) -> Option<usize> {
        match self {
            Op::Paint { cl, .. } | Op::Style { cl, .. } | Op::Clip { cl, .. } | Op::Seek { cl, .. } | Op::Home { cl } | Op::Clear { cl } | Op::Restart { cl } => Some(*cl),
            _ => None,
        }
    }
    pub fn show(&self) -> String {
        match self {
            Op::Paint { cl, text } => format!("paint {} {}", cl, hex(text)),
            Op::Style { cl, reg } => format!("style {} {}", cl, reg),
            Op::Clip { cl, regs } => format!("clip {} {}", cl, nums(regs)),
            Op::Seek { cl, cur } => format!("seek {} {}", cl, nums(cur)),
            Op::Home { cl } => format!("home {}", cl),
            Op::Clear { cl } => format!("clear {}", cl),
            Op::Restart { cl } => format!("restart {}", cl),
            Op::ClearRaw { lit, regs } => format!("clearraw {} {}", *lit as u8, nums(regs)),
            Op::PaintRaw { id, lit, regs, cur, style, text } => {
                format!("paintraw {} {} {} {} {} {}", id, *lit as u8, nums(regs), nums(cur), style, hex(text))
            }
            Op::Demo { k } => format!("demo {}", k),
            Op::Dirt { kind, seed, mid } => format!("dirt {} {} {}", kind, seed, mid),
        }
    }
}

impl Trace {
    pub fn show(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "dsim-trace 1");
        let _ = writeln!(s, "prop {}", self.prop);
        let _ = writeln!(s, "seed {}", self.seed);
        let _ = writeln!(s, "fb0 {} {}", self.fb0.0, self.fb0.1);
        let _ = writeln!(s, "knob {}", self.knob);
        for c in &self.clients {
            let cur = c.cur.map_or("home".into(), |c| nums(&c));
            let _ = writeln!(s, "client {} {} {}", nums(&c.clip), c.style, cur);
        }
        for a in &self.acts {
            let _ = writeln!(s, "@{} {}{}", a.t, a.op.show(), if a.note.is_empty() { String::new() } else { format!("  # {}", a.note) });
            if let Op::Paint { text, .. } | Op::PaintRaw { text, .. } = &a.op {
                let _ = writeln!(s, "#   text {:?}", text.iter().collect::<String>());
            }
        }
        s
    }

    pub fn parse(s: &str) -> Option<Trace> {
        let mut t = Trace { prop: String::new(), seed: 0, clients: vec![], fb0: (0, 0), knob: 0, acts: vec![] };
        fn list<const K: usize>(s: &str) -> Option<[u64; K]> {
            let v: Vec<u64> = s.split(',').map(|x| x.parse().ok()).collect::<Option<_>>()?;
            v.try_into().ok()
        }
        fn text(s: &str) -> Option<Vec<char>> {
            if s == "-" {
                return Some(vec![]);
            }
            s.split('.').map(|h| char::from_u32(u32::from_str_radix(h, 16).ok()?)).collect()
        }
        for line in s.lines() {
            let line = line.split('#').next()?.trim();
            let f: Vec<&str> = line.split_whitespace().collect();
            if f.is_empty() {
                continue;
            }
            let n = |i: usize| -> Option<u64> { f.get(i)?.parse().ok() };
            match f[0] {
                "dsim-trace" => {}
                "prop" => t.prop = f.get(1)?.to_string(),
                "seed" => t.seed = n(1)?,
                "fb0" => t.fb0 = (n(1)?, n(2)?),
                "knob" => t.knob = n(1)?,
                "client" => t.clients.push(Client {
                    clip: list(f.get(1)?)?,
                    style: n(2)?,
                    cur: if *f.get(3)? == "home" { None } else { Some(list(f[3])?) },
                }),
                at if at.starts_with('@') => {
                    let cl = |i: usize| n(i).map(|x| x as usize);
                    let op = match *f.get(1)? {
                        "paint" => Op::Paint { cl: cl(2)?, text: text(f.get(3)?)? },
                        "style" => Op::Style { cl: cl(2)?, reg: n(3)? },
                        "clip" => Op::Clip { cl: cl(2)?, regs: list(f.get(3)?)? },
                        "seek" => Op::Seek { cl: cl(2)?, cur: list(f.get(3)?)? },
                        "home" => Op::Home { cl: cl(2)? },
                        "clear" => Op::Clear { cl: cl(2)? },
                        "restart" => Op::Restart { cl: cl(2)? },
                        "clearraw" => Op::ClearRaw { lit: n(2)? == 1, regs: list(f.get(3)?)? },
                        "paintraw" => Op::PaintRaw { id: n(2)?, lit: n(3)? == 1, regs: list(f.get(4)?)?, cur: list(f.get(5)?)?, style: n(6)?, text: text(f.get(7)?)? },
                        "demo" => Op::Demo { k: n(2)? },
                        "dirt" => Op::Dirt { kind: n(2)?, seed: n(3)?, mid: n(4)? },
                        _ => return None,
                    };
                    t.acts.push(Act { t: at[1..].parse().ok()?, op, note: "" });
                }
                _ => return None,
            }
        }
        if t.prop.is_empty() || t.acts.iter().any(|a| a.op.client().map_or(false, |c| c >= t.clients.len())) {
            return None;
        }
        Some(t)
    }
}
