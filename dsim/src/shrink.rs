//! Makes a failing trace smaller while it fails with the same violation class.

use crate::reffont::{Ref, F};
use crate::trace::{Op, Trace};

pub fn text_of(op: &mut Op) -> Option<&mut Vec<char>> {
    match op {
        Op::Paint { text, .. } | Op::PaintRaw { text, .. } => Some(text),
        _ => None,
    }
}

/// Texts with hash collisions are a known finding: never shrink into one
fn legal(rf: &Ref, t: &Trace) -> bool {
    crate::exec::legal(t) && t.acts.iter().all(|a| match &a.op {
        Op::Paint { text, .. } | Op::PaintRaw { text, .. } => ![F::Small, F::Regular, F::Bold].iter().any(|f| rf.text_collides(*f, text)),
        _ => true,
    })
}

pub fn shrink(rf: &Ref, t: &Trace, budget: usize, fails: &mut dyn FnMut(&Trace) -> bool) -> Trace {
    let mut best = t.clone();
    let mut left = budget;
    let mut attempt = |best: &mut Trace, c: Trace| -> bool {
        if left == 0 || c == *best || !legal(rf, &c) {
            return false;
        }
        left -= 1;
        if fails(&c) {
            *best = c;
            true
        } else {
            false
        }
    };
    loop {
        let before = best.clone();
        // Acts, in chunks
        let mut size = (best.acts.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.acts.len() {
                let mut c = best.clone();
                c.acts.drain(i..(i + size).min(best.acts.len()));
                if !attempt(&mut best, c) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Clients without acts
        for cl in (0..best.clients.len()).rev() {
            if best.clients.len() > 1 && best.acts.iter().all(|a| a.op.client() != Some(cl)) {
                let mut c = best.clone();
                c.clients.remove(cl);
                for a in &mut c.acts {
                    match &mut a.op {
                        Op::Paint { cl: k, .. } | Op::Style { cl: k, .. } | Op::Clip { cl: k, .. } | Op::Seek { cl: k, .. } | Op::Home { cl: k } | Op::Clear { cl: k } | Op::Restart { cl: k } => {
                            if *k > cl {
                                *k -= 1
                            }
                        }
                        _ => {}
                    }
                }
                attempt(&mut best, c);
            }
        }
        // Texts, in chunks
        for i in 0..best.acts.len() {
            let mut size = text_of(&mut best.acts[i].op.clone()).map_or(0, |t| (t.len() / 2).max(1));
            while size > 0 {
                let mut k = 0;
                loop {
                    let mut c = best.clone();
                    let text = text_of(&mut c.acts[i].op).unwrap();
                    if k >= text.len() {
                        break;
                    }
                    let end = (k + size).min(text.len());
                    text.drain(k..end);
                    same(&mut c, i);
                    if !attempt(&mut best, c) {
                        k += size;
                    }
                }
                size /= 2;
            }
            // and simpler characters
            let n = text_of(&mut best.acts[i].op.clone()).map_or(0, |t| t.len());
            for k in 0..n.min(40) {
                let mut c = best.clone();
                let text = text_of(&mut c.acts[i].op).unwrap();
                if text[k] != 'a' {
                    text[k] = 'a';
                    same(&mut c, i);
                    attempt(&mut best, c);
                }
            }
        }
        // Numbers
        for i in 0..best.acts.len() {
            let c = best.clone();
            for (k, v) in numbers(&mut c.clone(), i).into_iter().enumerate() {
                for n in smaller(v) {
                    let mut c = best.clone();
                    set_number(&mut c, i, k, n);
                    same(&mut c, i);
                    if attempt(&mut best, c) {
                        break;
                    }
                }
            }
        }
        for i in 0..best.clients.len() {
            let mut c = best.clone();
            c.clients[i].cur = None;
            attempt(&mut best, c);
            let mut c = best.clone();
            c.clients[i].style = 1;
            attempt(&mut best, c);
            let mut c = best.clone();
            c.clients[i].clip = [0, 0, 336, 536];
            attempt(&mut best, c);
        }
        let mut c = best.clone();
        c.fb0 = (1, 0);
        attempt(&mut best, c);
        if best == before {
            break;
        }
    }
    for (k, a) in best.acts.iter_mut().enumerate() {
        a.t = k as u64;
    }
    best
}

fn smaller(v: u64) -> Vec<u64> {
    let mut c = vec![0, 1, v / 2, v.saturating_sub(v / 4), v.saturating_sub(1)];
    c.retain(|x| *x < v);
    c.dedup();
    c
}

fn refs(op: &mut Op) -> Vec<&mut u64> {
    match op {
        Op::Style { reg, .. } => vec![reg],
        Op::Clip { regs, .. } | Op::ClearRaw { regs, .. } => regs.iter_mut().collect(),
        Op::Seek { cur, .. } => cur.iter_mut().collect(),
        Op::PaintRaw { regs, cur, style, .. } => regs.iter_mut().chain(cur.iter_mut()).chain(std::iter::once(style)).collect(),
        Op::Dirt { kind, mid, .. } => vec![kind, mid],
        _ => vec![],
    }
}
fn numbers(t: &mut Trace, i: usize) -> Vec<u64> {
    refs(&mut t.acts[i].op).into_iter().map(|x| *x).collect()
}
fn set_number(t: &mut Trace, i: usize, k: usize, v: u64) {
    if let Some(x) = refs(&mut t.acts[i].op).into_iter().nth(k) {
        *x = v;
    }
}

/// Copies of one message change together
fn same(t: &mut Trace, i: usize) {
    let op = t.acts[i].op.clone();
    if let ("C06", Op::PaintRaw { id, .. }) = (t.prop.as_str(), &op) {
        for a in &mut t.acts {
            if matches!(&a.op, Op::PaintRaw { id: j, .. } if j == id) {
                a.op = op.clone();
            }
        }
    }
}
