//! Paints every cluster of a set of reference fonts, and texts that are not clusters, with the library it is linked with
//! (compiled from generated font files) and compares every pixel and cursor with the reference model. probe REF
#[path = "../../dsim/src/model.rs"]
#[allow(dead_code)]
mod model;
#[path = "../../dsim/src/reffont.rs"]
#[allow(dead_code)]
mod reffont;
use blitstr::{clear_region, new_fr_buf, paint_str, ClipRect, Cursor, GlyphStyle};
use reffont::{latin_of, Ref, F};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn check(rf: &Ref, style: u64, text: &[char], x: u64, y: u64, probes: &mut model::Probes) -> Result<(), String> {
    let s: String = text.iter().collect();
    let say = |what: String| format!("style {}, text {:?} ({}): {}", style, s, text.iter().map(|c| format!("{:X}", *c as u32)).collect::<Vec<_>>().join("-"), what);
    let mut fb = new_fr_buf();
    clear_region(&mut fb, ClipRect::full_screen());
    let mut want: Vec<u32> = fb.to_vec();
    let clip = model::Rect { x0: 0, y0: 0, x1: model::W, y1: model::H };
    let mut wc = model::Cur { x, y, lh: 0 };
    model::paint(rf, &mut want, clip, &mut wc, style, text, probes);
    let mut c = Cursor::new(x as usize, y as usize, 0);
    let r = catch_unwind(AssertUnwindSafe(|| paint_str(&mut fb, ClipRect::full_screen(), &mut c, GlyphStyle::from(style as usize), &s)));
    if r.is_err() {
        return Err(say("the library panics".into()));
    }
    for i in 0..want.len() {
        if fb[i] != want[i] {
            let b = (fb[i] ^ want[i]).trailing_zeros() as usize;
            return Err(say(format!("pixel {},{} is not the sprite's (painted from {},{})", i % model::WPL * 32 + b, i / model::WPL, x, y)));
        }
    }
    if (c.pt.x as u64, c.pt.y as u64, c.line_height as u64) != (wc.x, wc.y, wc.lh) {
        return Err(say(format!("cursor {},{} line height {}, not {},{} and {}", c.pt.x, c.pt.y, c.line_height, wc.x, wc.y, wc.lh)));
    }
    Ok(())
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let rf = Ref::parse(&std::fs::read(std::env::args().nth(1).unwrap()).unwrap());
    let mut n = (0u64, 0u64);
    let mut probes = model::Probes::default();
    for style in 0..3u64 {
        let latin = latin_of(style);
        let mut texts: Vec<Vec<char>> = vec![];
        for f in [F::Emoji, latin, F::Hanzi] {
            let cl = &rf.font(f).clusters;
            for (i, (c, _)) in cl.iter().enumerate() {
                texts.push(c.clone());
                // and what is not a cluster, or is one followed by something
                let mut t = c.clone();
                t.pop();
                if !t.is_empty() {
                    texts.push(t);
                }
                for d in [1i64, -1] {
                    let mut t = c.clone();
                    let l = t.len() - 1;
                    if let Some(x) = char::from_u32((t[l] as i64 + d) as u32) {
                        t[l] = x;
                        texts.push(t.clone());
                    }
                    if let Some(x) = char::from_u32((c[0] as i64 + d) as u32) {
                        let mut t = c.clone();
                        t[0] = x;
                        texts.push(t);
                    }
                }
                let mut t = c.clone();
                t.push('\u{301}');
                texts.push(t);
                let mut t = c.clone();
                t.extend(&cl[(i * 7 + 3) % cl.len()].0);
                texts.push(t.clone());
                // a line end, and lines of several fonts
                t.push('\n');
                for (k, g) in [latin, F::Emoji, F::Hanzi].iter().enumerate() {
                    let o = &rf.font(*g).clusters;
                    t.extend(&o[(i * 5 + k) % o.len()].0);
                    if (i + k) % 3 == 0 {
                        t.push('\n');
                    }
                }
                texts.push(t);
            }
        }
        for (i, t) in texts.iter().enumerate() {
            if rf.text_collides(latin, t) {
                continue;
            }
            n.0 += 1;
            n.1 += (t.len() == 1) as u64;
            if let Err(e) = check(&rf, style, t, (i as u64 * 13) % if i % 4 == 0 { 340 } else { 40 }, (i as u64 * 5) % 30, &mut probes) {
                println!("V {}", e);
                std::process::exit(1);
            }
        }
    }
    let p: Vec<String> = model::PROBE_NAMES.iter().zip(probes.0.iter()).map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    println!("S {{\"texts\":{},{}}}", n.0, p.join(","));
}
