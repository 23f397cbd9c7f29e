//! ratsym: bounded symbolic execution of whole-program LLVM IR, with every verdict decided by z3.
mod exec;
mod expr;
mod ir;
mod z3;

use exec::*;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

struct Queue {
    jobs: Vec<Vec<u64>>,
    active: usize,
    stop: bool,
}

#[derive(Default)]
struct Total {
    stats: Stats,
    viol: Vec<Violation>,
    errors: Vec<String>,
    leaves: Vec<Leaf>,
    reach: std::collections::BTreeMap<u32, u64>,
    tags: std::collections::BTreeMap<u64, u64>,
    hit: Vec<bool>,
    z_queries: u64,
    z_time: f64,
    timeout: bool,
    nviol: u64,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// the innermost frame of a violation's detail
fn site(d: &str) -> &str {
    let d = d.split(" < ").next().unwrap_or(d);
    d.rsplit(" in ").next().unwrap_or(d)
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

struct Opts {
    threads: usize,
    time: f64,
    budget: u64,
    heap: u64,
    max_viol: usize,
    max_paths: u64,
    max_models: usize,
    stop_viol: u64,
}

fn explore(sh: &Shared, entry: u32, params: &[u64], o: &Opts) -> Total {
    let q = Mutex::new(Queue { jobs: vec![vec![]], active: 0, stop: false });
    let cv = Condvar::new();
    let total = Mutex::new(Total { hit: vec![false; sh.m.funcs.len()], ..Default::default() });
    let t0 = Instant::now();
    let allviol = std::sync::atomic::AtomicU64::new(0);
    let npaths = std::sync::atomic::AtomicU64::new(0);
    let idle = std::sync::atomic::AtomicUsize::new(0);
    use std::sync::atomic::Ordering::Relaxed;
    std::thread::scope(|s| {
        for _ in 0..o.threads {
            s.spawn(|| {
                let mut e = Exec::new(sh, o.budget, o.heap);
                let mut local: Vec<Vec<u64>> = vec![];
                let mut viol = vec![];
                let mut nviol = 0u64;
                let mut errors: Vec<String> = vec![];
                let mut leaves = vec![];
                let mut timeout = false;
                let (mut seen, mut rng) = (0u64, 0x9E37_79B9_7F4A_7C15u64);
                loop {
                    // get work
                    let job = match local.pop() {
                        Some(j) => j,
                        None => {
                            let mut g = q.lock().unwrap();
                            idle.fetch_add(1, Relaxed);
                            let j = loop {
                                if g.stop {
                                    break None;
                                }
                                if let Some(j) = g.jobs.pop() {
                                    g.active += 1;
                                    break Some(j);
                                }
                                if g.active == 0 {
                                    g.stop = true;
                                    cv.notify_all();
                                    break None;
                                }
                                g = cv.wait(g).unwrap();
                            };
                            idle.fetch_sub(1, Relaxed);
                            match j {
                                Some(j) => j,
                                None => break,
                            }
                        }
                    };
                    let stop = e.run(entry, params, job);
                    local.append(&mut e.new_prefixes);
                    let nv = viol.len();
                    match e.finish(&stop, &mut viol) {
                        Ok(Some(l)) => {
                            // beyond the limit, keep an evenly thinned sample
                            seen += 1;
                            let cap = (o.max_models / o.threads).max(1);
                            if leaves.len() < cap {
                                leaves.push(l);
                            } else {
                                rng ^= rng << 13;
                                rng ^= rng >> 7;
                                rng ^= rng << 17;
                                let k = (rng % seen) as usize;
                                if k < cap {
                                    leaves[k] = l;
                                }
                            }
                        }
                        Ok(None) => {}
                        Err(m) => {
                            if errors.len() < 5 {
                                errors.push(m);
                            }
                        }
                    }
                    if viol.len() > nv {
                        nviol += 1;
                        allviol.fetch_add(1, Relaxed);
                        // keep a bounded number, distinct by (kind, id, detail)
                        let last = viol.last().unwrap().clone();
                        let same = viol[..nv].iter().filter(|v: &&Violation| v.kind == last.kind && v.id == last.id && site(&v.detail) == site(&last.detail)).count();
                        if same >= 3 || viol.len() > o.max_viol {
                            viol.pop();
                        }
                    }
                    let n = npaths.fetch_add(1, Relaxed);
                    let over = t0.elapsed() > Duration::from_secs_f64(o.time) || n > o.max_paths || allviol.load(Relaxed) >= o.stop_viol;
                    if over {
                        timeout = true;
                    }
                    let many_err = errors.len() >= 5;
                    if local.is_empty() || over || many_err || idle.load(Relaxed) > 0 {
                        let mut g = q.lock().unwrap();
                        if over || many_err {
                            g.stop = true;
                            cv.notify_all();
                            break;
                        }
                        if local.len() > 1 && idle.load(Relaxed) > 0 && g.jobs.len() < o.threads {
                            let k = (local.len() + 1) / 2;
                            g.jobs.extend(local.drain(..k));
                            cv.notify_all();
                        }
                        if local.is_empty() {
                            g.active -= 1;
                            if g.active == 0 && g.jobs.is_empty() {
                                g.stop = true;
                                cv.notify_all();
                            }
                        }
                        if g.stop {
                            break;
                        }
                    }
                }
                let mut t = total.lock().unwrap();
                let a = &mut t.stats;
                let b = &e.stats;
                a.paths += b.paths;
                a.dead += b.dead;
                a.insts += b.insts;
                a.decisions += b.decisions;
                a.forced += b.forced;
                a.checks += b.checks;
                a.leaf_sat += b.leaf_sat;
                a.leaf_unsat += b.leaf_unsat;
                a.branch_queries += b.branch_queries;
                t.nviol += nviol;
                t.viol.extend(viol);
                t.errors.extend(errors);
                t.leaves.extend(leaves);
                for (k, v) in &e.reach {
                    *t.reach.entry(*k).or_insert(0) += v;
                }
                for (k, v) in &e.tags {
                    *t.tags.entry(*k).or_insert(0) += v;
                }
                for (i, h) in e.hit.iter().enumerate() {
                    if *h {
                        t.hit[i] = true;
                    }
                }
                t.z_queries += e.z.queries;
                t.z_time += e.z.time.as_secs_f64();
                t.timeout |= timeout;
            });
        }
    });
    total.into_inner().unwrap()
}

extern "C" {
    fn mallopt(p: i32, v: i32) -> i32;
}

fn main() {
    unsafe {
        mallopt(-1, 1 << 30);
        mallopt(-2, 16 << 20);
        mallopt(-3, 1 << 29);
    }
    let args: Vec<String> = std::env::args().collect();
    let mut o = Opts { threads: 8, time: 600.0, budget: 20_000_000, heap: 1 << 26, max_viol: 40, max_paths: u64::MAX, max_models: 200_000, stop_viol: u64::MAX };
    let mut ll = None;
    let mut out = None;
    let mut models = None;
    let mut hs: Vec<(String, Vec<u64>, f64)> = vec![];
    let mut i = 1;
    while i < args.len() {
        let a = args[i].clone();
        let mut nx = || {
            i += 1;
            args[i].clone()
        };
        match a.as_str() {
            "--threads" => o.threads = nx().parse().unwrap(),
            "--time" => o.time = nx().parse().unwrap(),
            "--budget" => o.budget = nx().parse().unwrap(),
            "--heap" => o.heap = nx().parse().unwrap(),
            "--max-viol" => o.max_viol = nx().parse().unwrap(),
            "--max-models" => o.max_models = nx().parse().unwrap(),
            "--stop-viol" => o.stop_viol = nx().parse().unwrap(),
            "--max-paths" => o.max_paths = nx().parse().unwrap(),
            "--out" => out = Some(nx()),
            "--models" => models = Some(nx()),
            _ if ll.is_none() => ll = Some(a),
            _ => {
                // name[:p,p][@seconds]
                let (a, time) = match a.split_once('@') {
                    Some((x, t)) => (x.to_string(), t.parse().unwrap()),
                    None => (a, o.time),
                };
                let mut p = a.splitn(2, ':');
                let n = p.next().unwrap().to_string();
                let ps = p.next().map(|s| s.split(',').map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
                hs.push((n, ps, time));
            }
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(ll.expect("IR file")).unwrap();
    let m = match ir::parse(&text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("IR parse error: {}", e);
            std::process::exit(3);
        }
    };
    drop(text);
    let sh = Shared::new(m);
    eprintln!("parsed {} functions, {} globals in {:.2}s", sh.m.funcs.len(), sh.m.globals.len(), t0.elapsed().as_secs_f64());
    let mut js_out = String::from("{\n");
    let _ = writeln!(js_out, "\"z3\": {},\n\"harnesses\": [", js(&z3::version()));
    let mut mf = models.map(|p| std::io::BufWriter::new(std::fs::File::create(p).unwrap()));
    let mut first = true;
    for (name, params, time) in &hs {
        o.time = *time;
        let entry = match sh.m.fidx.get(name) {
            Some(e) => *e,
            None => {
                eprintln!("no such harness: {}", name);
                std::process::exit(3);
            }
        };
        let t1 = Instant::now();
        let t = explore(&sh, entry, params, &o);
        let el = t1.elapsed().as_secs_f64();
        eprintln!(
            "{} {:?}: {} paths ({} dead), {} violating, {} errors, {} insts, {} z3 queries {:.2}s, wall {:.2}s{}",
            name, params, t.stats.paths, t.stats.dead, t.nviol, t.errors.len(), t.stats.insts, t.z_queries, t.z_time, el,
            if t.timeout { " TIMEOUT" } else { "" }
        );
        if let Some(f) = &mut mf {
            for l in &t.leaves {
                let _ = writeln!(f, "{} {} {} {} {:016x}", name, params.iter().map(|p| p.to_string()).collect::<Vec<_>>().join(","), hex(&l.input), l.outcome, l.obs);
            }
        }
        if !first {
            js_out.push_str(",\n");
        }
        first = false;
        let fns: Vec<String> = t.hit.iter().enumerate().filter(|(_, h)| **h).map(|(i, _)| js(&sh.m.funcs[i].name)).collect();
        let _ = write!(
            js_out,
            "{{\"name\": {}, \"params\": {:?}, \"paths\": {}, \"dead\": {}, \"insts\": {}, \"decisions\": {}, \"implied\": {}, \"checks\": {}, \"leaf_sat\": {}, \"leaf_unsat\": {}, \"branch_queries\": {}, \"queries\": {}, \"solver_time\": {:.3}, \"wall\": {:.3}, \"timeout\": {}, \"nviol\": {},\n \"errors\": [{}],\n \"violations\": [{}],\n \"reach\": {{{}}},\n \"tags\": {{{}}},\n \"functions\": [{}]}}",
            js(name), params, t.stats.paths, t.stats.dead, t.stats.insts, t.stats.decisions, t.stats.forced, t.stats.checks,
            t.stats.leaf_sat, t.stats.leaf_unsat, t.stats.branch_queries, t.z_queries, t.z_time, el, t.timeout, t.nviol,
            t.errors.iter().map(|e| js(e)).collect::<Vec<_>>().join(", "),
            t.viol.iter().map(|v| format!("{{\"kind\": {}, \"id\": {}, \"input\": {}, \"detail\": {}}}", js(&v.kind), v.id, js(&hex(&v.input)), js(&v.detail))).collect::<Vec<_>>().join(",\n  "),
            t.reach.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect::<Vec<_>>().join(", "),
            t.tags.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect::<Vec<_>>().join(", "),
            fns.join(", ")
        );
        let _ = t.leaves.iter().map(|l| l.tags).count();
    }
    js_out.push_str("\n]}\n");
    if let Some(f) = &mut mf {
        f.flush().unwrap();
    }
    match out {
        Some(p) => std::fs::write(p, js_out).unwrap(),
        None => println!("{}", js_out),
    }
}
