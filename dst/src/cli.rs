//! The command line.

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "exec" => {
            crate::run::init();
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let (p, tr) = crate::plan::Plan::parse(&t).unwrap();
            let replay = t.contains("\nREPLAY").then_some(tr);
            let o = crate::run::run(&p, replay, String::new(), a.len() > 3);
            println!("ok steps {} done {} events {} overlaps {} hash {:x}", o.stats.steps, o.done, o.events, o.overlaps, o.stats.hash);
        }
        "plan" => {
            let p = crate::r#gen::plan(&a[2], a[3].parse().unwrap(), crate::vals::EXE);
            print!("{}", p.text());
        }
        "loop" => {
            crate::run::init();
            let (s, n): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            let t = std::time::Instant::now();
            let (mut steps, mut done, mut ab, mut ov, mut ev, mut give, mut fair, mut steps_max) = (0, 0, 0, 0, 0, 0, 0, 0);
            for seed in s..s + n {
                let p = crate::r#gen::plan(&a[2], seed, crate::vals::EXE);
                let o = crate::run::run(&p, None, format!("{} {}", a[2], seed), false);
                steps += o.stats.steps; done += o.done; ab += o.aborted; ov += o.overlaps; ev += o.events; give += o.giveups; fair += o.stats.fair as u64;
                steps_max = steps_max.max(o.stats.steps);
            }
            println!("{} runs {:?} steps {steps} max {steps_max} done {done} aborted {ab} events {ev} overlaps {ov} giveups {give} fair {fair}", n, t.elapsed());
        }
        "worker" => crate::driver::worker(&a[2..]),
        "twice" => {
            // `twice PROP SEED`: the run of a seed, then the replay of its trace.
            crate::run::init();
            let seed: u64 = a[3].parse().unwrap();
            let p = crate::r#gen::plan(&a[2], seed, crate::vals::EXE);
            eprintln!("RUN A");
            let o = crate::run::run(&p, None, "a".into(), true);
            eprintln!("RUN B");
            let q = crate::run::run(&p, Some(o.stats.trace.clone()), "b".into(), true);
            println!("{:x} {} {:x} {}", o.stats.hash, o.stats.steps, q.stats.hash, q.stats.steps);
        }
        "try" => crate::driver::try_plan(&a[2..]),
        "replay" => std::process::exit(crate::driver::replay(&a[2..])),
        "check" => std::process::exit(crate::driver::check(&a[2..])),
        _ => panic!(),
    }
}
