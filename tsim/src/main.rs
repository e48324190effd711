//! C19: painters on threads and in interrupt handlers, each with a frame
//! buffer and cursors of its own, on the simulated machine of sched.c.

mod sim;
mod world;

use dsim::reffont::Ref;
use dsim::rng::{run_seed, Digest};
use dsim::text::Atoms;
use sim::Verdict;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::time::{Duration, Instant};

fn load(path: &str) -> Ref {
    Ref::parse(&std::fs::read(path).expect("reference fonts"))
}

fn set(out: &mut impl Write, s: &HashSet<u64>) {
    out.write_all(&(s.len() as u64).to_le_bytes()).unwrap();
    for x in s {
        out.write_all(&x.to_le_bytes()).unwrap();
    }
}

fn main() {
    dsim::exec::pin();
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| -> u64 { a[i].parse().expect("number") };
    match a[1].as_str() {
        // shard REF SEED FIRST LAST STEP OUT SECONDS
        "shard" => {
            let rf = load(&a[2]);
            let atoms = Atoms::new(&rf);
            let (seed, first, last, step) = (n(3), n(4), n(5), n(6));
            let end = Instant::now() + Duration::from_secs(n(8));
            let mut tot: BTreeMap<&str, u64> = BTreeMap::new();
            let (mut histories, mut inter, mut digest) = (HashSet::new(), HashSet::new(), Digest::new());
            let mut m = sim::Machine::new();
            let mut run = first;
            let mut last_said = Instant::now();
            println!("R {}", run);
            while run < last && Instant::now() < end {
                if last_said.elapsed() > Duration::from_millis(500) {
                    println!("R {}", run);
                    last_said = Instant::now();
                }
                let t = world::generate(&rf, &atoms, run_seed(seed, "C19", run));
                let v = m.execute(&t, None);
                let st = m.stats();
                for (k, x) in st.counts() {
                    *tot.entry(k).or_default() += x;
                }
                *tot.entry("runs").or_default() += 1;
                *tot.entry("calls").or_default() += t.base.acts.len() as u64;
                *tot.entry("painters").or_default() += t.base.clients.len() as u64;
                *tot.entry("runs_with_handlers").or_default() += t.prio.iter().any(|p| *p > 0) as u64;
                *tot.entry("runs_with_delayed_stores_allowed").or_default() += t.rates.weak as u64;
                let mut d = Digest::new();
                d.bytes(t.base.show().as_bytes());
                d.add(st.place);
                if t.base.acts.len() > 1 && st.switches > t.base.clients.len() as u64 {
                    histories.insert(d.0);
                }
                inter.insert(st.place);
                digest.add(d.0);
                if run < first + 2 * step && first == 0 {
                    let mut t = t.clone();
                    t.events = m.events();
                    let s = t.show();
                    let s: String = s.lines().take(40).collect::<Vec<_>>().join("\n");
                    println!("T {}", s.replace('\\', "\\\\").replace('\n', "\\n"));
                }
                match v {
                    Verdict::Held => {}
                    Verdict::Violated(class, msg) => {
                        println!("V {}\t{}\t0\t{}", run, class, msg.replace(['\n', '\t'], " "));
                        break;
                    }
                }
                run += step;
            }
            let mut f = std::io::BufWriter::new(std::fs::File::create(&a[7]).expect("output file"));
            set(&mut f, &histories);
            set(&mut f, &inter);
            let body: Vec<String> = tot.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect();
            println!("D {:x}", digest.0);
            println!("S {{{}}}", body.join(", "));
        }
        // gen REF SEED RUN: the run with the scheduler's decisions, as a replay file
        "gen" => {
            let rf = load(&a[2]);
            let mut t = world::generate(&rf, &Atoms::new(&rf), run_seed(n(3), "C19", n(4)));
            let mut m = sim::Machine::new();
            m.execute(&t, None);
            t.events = m.events();
            print!("{}", t.show());
        }
        // replay FILE
        "replay" => {
            let t = sim::Trace::parse(&std::fs::read_to_string(&a[2]).expect("trace file")).expect("trace");
            let mut m = sim::Machine::new();
            match m.execute(&t, Some(&t.events)) {
                Verdict::Held => println!("held"),
                Verdict::Violated(class, msg) => {
                    println!("V 0\t{}\t0\t{}", class, msg.replace(['\n', '\t'], " "));
                    std::process::exit(1);
                }
            }
        }
        // shrink FILE CLASS
        "shrink" => {
            let t = sim::Trace::parse(&std::fs::read_to_string(&a[2]).expect("trace file")).expect("trace");
            print!("{}", sim::shrink(t, &a[3], Instant::now() + Duration::from_secs(40)).show());
        }
        x => panic!("unknown command {}", x),
    }
}
