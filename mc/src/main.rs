extern crate alloc;
mod clear;
mod context;
mod cost;
mod cross;
mod engine;
#[path = "../../probe/src/digest.rs"]
mod digest;
mod faults;
mod handles;
mod hdr;
mod img;
mod inv;
mod iters;
mod lists;
mod model;
mod names;
#[path = "../../probe/src/proto.rs"]
mod proto;
mod places;
mod props;
mod real;
mod refs;
mod room;
mod sched;
mod tool;
mod vals;
mod walk;
mod work;

use engine::*;

fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

/// Re-runs the case of a replay file, by driver and number (the images are rebuilt).
fn replay(path: &str) -> i32 {
    let s = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| -> String {
        let i = s.find(&format!("\"{k}\":")).expect("field") + k.len() + 3;
        let r = &s[i..];
        if let Some(q) = r.strip_prefix('"') {
            let mut o = String::new();
            let mut esc = false;
            for c in q.chars() {
                match (esc, c) {
                    (true, c) => {
                        o.push(c);
                        esc = false
                    }
                    (false, '\\') => esc = true,
                    (false, '"') => break,
                    (false, c) => o.push(c),
                }
            }
            o
        } else {
            r.chars().take_while(|c| c.is_ascii_digit()).collect()
        }
    };
    let (p, t) = (get("property"), tier(&get("tier")));
    println!("{p}: {} case {}: {}", get("driver"), get("case"), get("what"));
    let r = one(&p, t, &props::drivers(&p, t), &get("driver"), get("case").parse().unwrap());
    tool::cleanup();
    r
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => {
            let t = tier(&a[2]);
            let names: Vec<&'static str> = props::drivers(&a[1], t).iter().map(|d| d.name).collect();
            supervise(&a[1], t, &names)
        }
        Some("worker") => {
            let t = tier(&a[2]);
            let cap = if t == Tier::Quick { 720 } else { 6 * 3600 };
            let r = worker(&a[1], t, props::drivers(&a[1], t), a.get(3).map(|s| s.into()), cap);
            tool::cleanup();
            r
        }
        Some("one") => {
            let t = tier(&a[2]);
            one(&a[1], t, &props::drivers(&a[1], t), &a[3], a[4].parse().unwrap())
        }
        Some("self") => {
            println!("{:?}", real::self_check());
            0
        }
        Some("exec-clear") => clear::exec_clear(&a[1]),
        Some("exec-work") => work::exec(&a[1], a[2].parse().unwrap()),
        Some("replay") => replay(&a[1]),
        Some("walk") => {
            install_hook();
            let b = std::fs::read(&a[1]).unwrap();
            let mut c = Ctx::new("ALL", Tier::Quick);
            c.verbose = true;
            walk::walk(&mut c, &b, &walk::Cfg { validate: true, exact: true, max_keys: 100000, ..walk::Cfg::full() });
            println!("{} states {} transitions {} mismatches", c.states, c.transitions, c.viols.len());
            (c.viols.len() > 0) as i32
        }
        _ => {
            eprintln!("usage: mc check|worker|one|walk|replay ...");
            2
        }
    };
    std::process::exit(code);
}
