mod gen;
mod sim;
mod store;
mod types;
mod unit;
use gen::*;
use sim::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use types::*;

pub fn reset_mock() {
    #[cfg(feature = "pers")]
    rocksdb::mock_reset();
}

fn dispatch_run(cfg: Cfg, r: &mut Rng, uniq: u64) -> Outcome {
    match cfg.ty.as_str() {
        "snap" => random_run::<S>(cfg, r, uniq),
        #[cfg(feature = "unicache")]
        "lru" => random_run::<ULru>(cfg, r, uniq),
        #[cfg(feature = "unicache")]
        "lfu" => random_run::<ULfu>(cfg, r, uniq),
        _ => random_run::<P>(cfg, r, uniq),
    }
}
fn dispatch_replay(cfg: &Cfg, acts: &[Act]) -> Vec<Violation> {
    match cfg.ty.as_str() {
        "snap" => replay::<S>(cfg, acts),
        #[cfg(feature = "unicache")]
        "lru" => replay::<ULru>(cfg, acts),
        #[cfg(feature = "unicache")]
        "lfu" => replay::<ULfu>(cfg, acts),
        _ => replay::<P>(cfg, acts),
    }
}

fn shrink(cfg: &Cfg, acts: Vec<Act>, prop: &str) -> Vec<Act> {
    let bad = |a: &[Act]| dispatch_replay(cfg, a).iter().any(|v| v.prop == prop);
    let mut cur = acts;
    let t0 = Instant::now();
    let mut chunk = cur.len() / 2;
    while chunk >= 1 && t0.elapsed() < Duration::from_secs(20) {
        let mut i = 0;
        let mut progress = false;
        while i < cur.len() {
            let mut c = cur.clone();
            let e = (i + chunk).min(c.len());
            c.drain(i..e);
            if bad(&c) {
                cur = c;
                progress = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !progress {
            break;
        }
        if chunk > 1 {
            chunk /= 2
        }
    }
    cur
}

fn cfg_str(c: &Cfg) -> String {
    format!(
        "cfg {} {} {} {} {} {} {} {} {} {} {}",
        c.ty,
        c.n,
        c.flex.map(|(r, w)| format!("{}/{}", r, w)).unwrap_or("-".into()),
        c.batch,
        c.backend,
        c.lazy as u8,
        c.election,
        c.resend,
        c.flush,
        c.sparse as u8,
        c.hold as u8
    )
}
fn act_str(a: &Act) -> String {
    match a {
        Act::Deliver(a, b) => format!("deliver {} {}", a, b),
        Act::Drop(a, b) => format!("drop {} {}", a, b),
        Act::Take(a) => format!("take {}", a),
        Act::Tick(a) => format!("tick {}", a),
        Act::Append(a) => format!("append {}", a),
        Act::Lead(a) => format!("lead {}", a),
        Act::Crash(a) => format!("crash {}", a),
        Act::Arm(a, b) => format!("arm {} {}", a, b),
        Act::Recover(a) => format!("recover {}", a),
        Act::Reconn(a, b) => format!("reconn {} {}", a, b),
        Act::Cut(a, b) => format!("cut {} {}", a, b),
        Act::Heal(a, b) => format!("heal {} {}", a, b),
        Act::Trim(a, b) => format!("trim {} {}", a, b),
        Act::Snap(a, b, c) => format!("snap {} {} {}", a, b, *c as u8),
        Act::Reconf(a) => format!("reconf {}", a),
        Act::Read(a, b, c) => format!("read {} {} {}", a, b, c),
        Act::Prio(a, b) => format!("prio {} {}", a, b),
    }
}
fn parse(text: &str) -> (String, Cfg, Vec<Act>) {
    let mut prop = String::new();
    let mut cfg = None;
    let mut acts = vec![];
    for l in text.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.is_empty() || w[0] == "#" {
            continue;
        }
        let u = |i: usize| w[i].parse::<u64>().unwrap();
        let b = |i: usize| w[i].parse::<u8>().unwrap();
        match w[0] {
            "prop" => prop = w[1].to_string(),
            "cfg" => {
                cfg = Some(Cfg {
                    ty: w[1].into(),
                    n: u(2) as usize,
                    flex: if w[3] == "-" { None } else { w[3].split_once('/').map(|(r, x)| (r.parse().unwrap(), x.parse().unwrap())) },
                    batch: u(4) as usize,
                    backend: b(5),
                    lazy: u(6) != 0,
                    election: u(7),
                    resend: u(8),
                    flush: u(9),
                    sparse: u(10) != 0,
                    hold: w.len() > 11 && u(11) != 0,
                })
            }
            "deliver" => acts.push(Act::Deliver(b(1), b(2))),
            "drop" => acts.push(Act::Drop(b(1), b(2))),
            "take" => acts.push(Act::Take(b(1))),
            "tick" => acts.push(Act::Tick(b(1))),
            "append" => acts.push(Act::Append(b(1))),
            "lead" => acts.push(Act::Lead(b(1))),
            "crash" => acts.push(Act::Crash(b(1))),
            "arm" => acts.push(Act::Arm(b(1), b(2))),
            "recover" => acts.push(Act::Recover(b(1))),
            "reconn" => acts.push(Act::Reconn(b(1), b(2))),
            "cut" => acts.push(Act::Cut(b(1), b(2))),
            "heal" => acts.push(Act::Heal(b(1), b(2))),
            "trim" => acts.push(Act::Trim(b(1), b(2))),
            "snap" => acts.push(Act::Snap(b(1), b(2), b(3) != 0)),
            "reconf" => acts.push(Act::Reconf(b(1))),
            "read" => acts.push(Act::Read(b(1), b(2), b(3))),
            "prio" => acts.push(Act::Prio(b(1), b(2))),
            _ => {}
        }
    }
    (prop, cfg.expect("no cfg line"), acts)
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ")
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m.chars().take(200).collect::<String>(), l));
    }));
    let mode = std::env::args().nth(1).unwrap_or_default();
    match mode.as_str() {
        "replay" => {
            let f = std::env::args().nth(2).unwrap();
            let text = std::fs::read_to_string(&f).unwrap();
            if let Some(l) = text.lines().find(|l| l.starts_with("unit ")) {
                let out = unit::run(l.trim_start_matches("unit ").trim(), 1, Duration::from_secs(20));
                for (p, s) in &out.viol {
                    println!("{}: {}", p, s);
                }
                std::process::exit(if out.viol.is_empty() { 0 } else { 1 });
            }
            let (prop, cfg, acts) = parse(&text);
            let v = dispatch_replay(&cfg, &acts);
            for x in &v {
                println!("step {}: {}: {}", x.step, x.prop, x.what);
            }
            std::process::exit(if v.iter().any(|x| prop.is_empty() || x.prop == prop) { 1 } else { 0 });
        }
        "run" => run(),
        _ => {
            eprintln!("vsim run --prop P --secs N --seed S --out FILE [--threads N] [--types a,b] | vsim replay FILE");
            std::process::exit(2)
        }
    }
}

fn run() {
    let prop = arg("--prop").unwrap_or("all".into());
    let secs: f64 = arg("--secs").and_then(|x| x.parse().ok()).unwrap_or(10.0);
    let seed: u64 = arg("--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    let threads: u64 = arg("--threads").and_then(|x| x.parse().ok()).unwrap_or(8);
    let out = arg("--out");
    let all_types = if cfg!(feature = "unicache") { "lru,lfu,plain" } else { "plain,snap" };
    let types: Vec<String> = arg("--types").unwrap_or(all_types.into()).split(',').map(|s| s.to_string()).collect();
    let t0 = Instant::now();
    let dl = Duration::from_secs_f64(secs);
    let mut nviol = 0u64;
    // direct checks of the parts that need no cluster
    let mut u = unit::Out { viol: vec![], cases: 0 };
    for q in prop.split('+') {
        let x = unit::run(q, seed, Duration::from_secs_f64(secs.min(10.0) / 2.0));
        u.cases += x.cases;
        u.viol.extend(x.viol);
    }
    let wanted = |prop: &str, p: &str| prop == "all" || prop.split('+').any(|q| q == p);
    let mut first: Option<(String, String, String)> = None; // prop, what, replay text
    for (p, s) in &u.viol {
        if wanted(&prop, p) {
            nviol += 1;
            if first.is_none() {
                first = Some((p.to_string(), s.clone(), format!("prop {}\nunit {}\n# {}\n", p, p, s)));
            }
        }
    }
    let found: Arc<Mutex<Vec<(String, String, usize, Outcome)>>> = Default::default();
    let stop = Arc::new(AtomicBool::new(first.is_some()));
    let runs = Arc::new(AtomicU64::new(0));
    let steps = Arc::new(AtomicU64::new(0));
    let dels = Arc::new(AtomicU64::new(0));
    let decs = Arc::new(AtomicU64::new(0));
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (prop, types, found, stop, runs, steps, dels, decs) = (prop.clone(), types.clone(), found.clone(), stop.clone(), runs.clone(), steps.clone(), dels.clone(), decs.clone());
            std::thread::spawn(move || {
                let ty: Vec<&str> = types.iter().map(|s| s.as_str()).collect();
                let mut k = 0u64;
                while !stop.load(Ordering::Relaxed) && t0.elapsed() < dl {
                    let mut r = Rng(seed.wrapping_mul(0x1000_0000_01B3).wrapping_add(t << 48).wrapping_add(k));
                    r.next();
                    k += 1;
                    let cfg = gen_cfg(&mut r, &ty);
                    let o = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dispatch_run(cfg, &mut r, (t << 32) + k))) {
                        Ok(o) => o,
                        Err(_) => {
                            eprintln!("monitor panics: {}", LAST_PANIC.with(|p| p.borrow().clone()));
                            continue;
                        }
                    };
                    reset_mock();
                    runs.fetch_add(1, Ordering::Relaxed);
                    steps.fetch_add(o.acts.len() as u64, Ordering::Relaxed);
                    dels.fetch_add(o.stats[0], Ordering::Relaxed);
                    decs.fetch_add(o.stats[1], Ordering::Relaxed);
                    if let Some(v) = o.viol.iter().find(|v| prop == "all" || prop.split('+').any(|q| q == v.prop)) {
                        let (p, w, st) = (v.prop.to_string(), v.what.clone(), v.step);
                        found.lock().unwrap().push((p, w, st, o));
                        if prop != "all" {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    let mut f = std::mem::take(&mut *found.lock().unwrap());
    nviol += f.len() as u64;
    if prop == "all" {
        let mut by: std::collections::BTreeMap<String, (u64, String, usize)> = Default::default();
        for (i, (p, w, _, _)) in f.iter().enumerate() {
            let e = by.entry(p.clone()).or_insert((0, w.clone(), i));
            e.0 += 1;
        }
        for (p, (n, w, i)) in &by {
            eprintln!("{} x{}: {}", p, n, w);
            if let Some(o) = &out {
                let acts = shrink(&f[*i].3.cfg, f[*i].3.acts.clone(), p);
                let text = replay_text(p, &f[*i].3.cfg, &acts);
                std::fs::write(format!("{}.{}", o, p), text).unwrap();
            }
        }
    }
    if first.is_none() && !f.is_empty() && prop != "all" {
        f.sort_by_key(|x| x.2);
        let (p, _, st, o) = f.remove(0);
        let mut acts = o.acts;
        acts.truncate(st);
        let acts = shrink(&o.cfg, acts, &p);
        let w = dispatch_replay(&o.cfg, &acts).into_iter().find(|v| v.prop == p).map(|v| v.what).unwrap_or_default();
        first = Some((p.clone(), w, replay_text(&p, &o.cfg, &acts)));
    }
    if let (Some((_, _, text)), Some(o)) = (&first, &out) {
        std::fs::write(o, text).unwrap();
    }
    let fv = first.map(|(p, w, _)| format!("{{\"prop\":\"{}\",\"what\":\"{}\"}}", p, esc(&w))).unwrap_or("null".into());
    println!(
        "{{\"runs\":{},\"steps\":{},\"delivered\":{},\"decides\":{},\"unit_cases\":{},\"violations\":{},\"wall_s\":{:.1},\"seed\":{},\"first\":{}}}",
        runs.load(Ordering::Relaxed),
        steps.load(Ordering::Relaxed),
        dels.load(Ordering::Relaxed),
        decs.load(Ordering::Relaxed),
        u.cases,
        nviol,
        t0.elapsed().as_secs_f64(),
        seed,
        fv
    );
    std::process::exit(if nviol > 0 { 1 } else { 0 });
}

fn replay_text(p: &str, cfg: &Cfg, acts: &[Act]) -> String {
    let mut t = format!("prop {}\n{}\n", p, cfg_str(cfg));
    let vs = dispatch_replay(cfg, acts);
    for (i, a) in acts.iter().enumerate() {
        t.push_str(&act_str(a));
        t.push('\n');
        for v in vs.iter().filter(|v| v.step == i + 1) {
            t.push_str(&format!("# {}: {}\n", v.prop, v.what.replace('\n', " ")));
        }
    }
    t
}
