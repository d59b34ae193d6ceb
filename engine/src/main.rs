mod exec;
mod expr;
mod ir;
mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::fmt::Write as _;
use std::sync::atomic::*;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct WOut {
    jst: Vec<Stats>,
    viol: Vec<Violation>,
    recs: Vec<PathRec>,
    zq: [u64; 4],
    zt: f64,
    zmax: f64,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut module = String::new();
    let mut jobsf = String::new();
    let mut out = String::new();
    let mut threads = 8usize;
    let mut time = 600f64;
    let mut after = 1e9f64;
    let mut seed = 1u64;
    let mut crosscheck = 0u64;
    let mut recs = 20000usize;
    let mut i = 1;
    while i < args.len() {
        let v = || args[i + 1].clone();
        match args[i].as_str() {
            "--module" => module = v(),
            "--jobs" => jobsf = v(),
            "--out" => out = v(),
            "--threads" => threads = v().parse().unwrap(),
            "--time" => time = v().parse().unwrap(),
            "--after" => after = v().parse().unwrap(),
            "--seed" => seed = v().parse().unwrap(),
            "--crosscheck" => crosscheck = v().parse().unwrap(),
            "--recs" => recs = v().parse().unwrap(),
            x => panic!("unknown argument {}", x),
        }
        i += 2;
    }
    if std::env::var("VP_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let t0 = Instant::now();
    let src = std::fs::read_to_string(&module).unwrap();
    let m = ir::Parser::parse(&src);
    drop(src);
    let prog = Prog::new(m);
    let tparse = t0.elapsed().as_secs_f64();
    let mut jobs: Vec<Job> = vec![];
    for l in std::fs::read_to_string(&jobsf).unwrap().lines() {
        let f: Vec<&str> = l.split('\t').collect();
        if f.len() < 5 {
            continue;
        }
        jobs.push(Job {
            name: f[0].into(),
            entry: f[1].into(),
            params: f[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            max_steps: f[3].parse().unwrap(),
            max_time: f[4].parse().unwrap(),
        });
    }
    let nj = jobs.len();
    for j in &jobs {
        if !prog.m.fidx.contains_key(&j.entry) {
            eprintln!("no entry function {}", j.entry);
            std::process::exit(3);
        }
    }
    let mut q = VecDeque::new();
    for j in 0..nj {
        q.push_back((j, vec![]));
    }
    let sh = Arc::new(Shared {
        qlen: AtomicUsize::new(q.len()),
        queue: Mutex::new(q),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        nworkers: threads,
        stop: AtomicBool::new(false),
        job_left: (0..nj).map(|_| AtomicUsize::new(1)).collect(),
        job_time: (0..nj).map(|_| AtomicU64::new(0)).collect(),
        job_paths: (0..nj).map(|_| AtomicU64::new(0)).collect(),
        job_viol: (0..nj).map(|_| AtomicU64::new(0)).collect(),
        job_incomplete: (0..nj).map(|_| AtomicBool::new(false)).collect(),
        deadline: Instant::now() + Duration::from_secs_f64(time),
        start: Instant::now(),
        ends: AtomicU64::new(u64::MAX),
        after: (after * 1000.0) as u64,
    });
    let outs: Mutex<Vec<WOut>> = Mutex::new(vec![]);
    let progress = std::env::var("VP_PROGRESS").is_ok();
    std::thread::scope(|s| {
        for t in 0..threads {
            let sh = sh.clone();
            let (prog, jobs, outs) = (&prog, &jobs, &outs);
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(s, move || {
                    let mut e = Engine::new(prog, jobs, seed.wrapping_add(t as u64 * 7919), crosscheck, recs / threads);
                    loop {
                        let mut q = sh.queue.lock().unwrap();
                        sh.idle.fetch_add(1, Ordering::SeqCst);
                        let item = loop {
                            if let Some(x) = q.pop_front() {
                                sh.qlen.store(q.len(), Ordering::SeqCst);
                                break Some(x);
                            }
                            if sh.idle.load(Ordering::SeqCst) == sh.nworkers {
                                sh.cv.notify_all();
                                break None;
                            }
                            q = sh.cv.wait(q).unwrap();
                        };
                        match item {
                            None => break,
                            Some((j, prefix)) => {
                                sh.idle.fetch_sub(1, Ordering::SeqCst);
                                drop(q);
                                let over = sh.over() || sh.job_time[j].load(Ordering::Relaxed) as f64 / 1e6 > jobs[j].max_time;
                                if over {
                                    sh.job_incomplete[j].store(true, Ordering::Relaxed);
                                } else if sh.job_viol[j].load(Ordering::Relaxed) < 8 {
                                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.run_task(j, prefix, &sh)));
                                    if r.is_err() {
                                        sh.job_incomplete[j].store(true, Ordering::Relaxed);
                                    }
                                }
                                if sh.job_left[j].fetch_sub(1, Ordering::SeqCst) == 1 && progress {
                                    eprintln!(
                                        "[{:7.2}] {:40} cpu {:7.2}s paths {} viol {} incomplete {}",
                                        t0.elapsed().as_secs_f64(),
                                        jobs[j].name,
                                        sh.job_time[j].load(Ordering::Relaxed) as f64 / 1e6,
                                        sh.job_paths[j].load(Ordering::Relaxed),
                                        sh.job_viol[j].load(Ordering::Relaxed),
                                        sh.job_incomplete[j].load(Ordering::Relaxed)
                                    );
                                }
                            }
                        }
                    }
                    outs.lock().unwrap().push(WOut { jst: std::mem::take(&mut e.jst), viol: std::mem::take(&mut e.viol), recs: std::mem::take(&mut e.recs), zq: [e.z3.queries, e.z3.sat, e.z3.unsat, e.z3.unknown], zt: e.z3.time, zmax: e.z3.max_time });
                })
                .unwrap();
        }
    });
    let outs = outs.into_inner().unwrap();
    let mut s = String::new();
    let zq: Vec<u64> = (0..4).map(|k| outs.iter().map(|o| o.zq[k]).sum()).collect();
    let zt: f64 = outs.iter().map(|o| o.zt).sum();
    let zmax = outs.iter().map(|o| o.zmax).fold(0.0, f64::max);
    let _ = write!(
        s,
        "{{\"solver\":{},\"wall\":{:.3},\"parse_seconds\":{:.3},\"module_functions\":{},\"z3\":{{\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"seconds\":{:.4},\"max_seconds\":{:.4}}},\n\"jobs\":[",
        js(&z3::version()),
        t0.elapsed().as_secs_f64(),
        tparse,
        prog.m.funcs.iter().filter(|f| f.defined).count(),
        zq[0],
        zq[1],
        zq[2],
        zq[3],
        zt,
        zmax
    );
    let mut allf: BTreeSet<&str> = BTreeSet::new();
    for j in 0..nj {
        let mut t = Stats::default();
        let mut reach: BTreeMap<u64, u64> = BTreeMap::new();
        let mut uns: HashMap<String, u64> = HashMap::new();
        let mut funcs: BTreeSet<&str> = BTreeSet::new();
        for o in &outs {
            let x = &o.jst[j];
            t.paths += x.paths;
            t.done += x.done;
            t.assumed += x.assumed;
            t.forks += x.forks;
            t.instrs += x.instrs;
            t.merges += x.merges;
            t.merge_aborts += x.merge_aborts;
            t.asserts += x.asserts;
            t.asserts_const += x.asserts_const;
            t.asserts_z3 += x.asserts_z3;
            t.dom_decided += x.dom_decided;
            t.rel_decided += x.rel_decided;
            t.model_decided += x.model_decided;
            t.cache_hits += x.cache_hits;
            t.crosschecks += x.crosschecks;
            t.max_depth = t.max_depth.max(x.max_depth);
            for (k, v) in &x.reach {
                *reach.entry(*k).or_insert(0) += v;
            }
            for (k, v) in &x.unsupported {
                *uns.entry(k.clone()).or_insert(0) += v;
            }
            for (k, v) in x.funcs.iter().enumerate() {
                if *v {
                    funcs.insert(&prog.m.funcs[k].name);
                }
            }
        }
        let u: Vec<String> = uns.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let r: Vec<String> = reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
        let _ = write!(
            s,
            "{}\n{{\"name\":{},\"cpu\":{:.3},\"paths\":{},\"done\":{},\"assumed\":{},\"forks\":{},\"instrs\":{},\"merges\":{},\"merge_aborts\":{},\"asserts\":{},\"asserts_const\":{},\"asserts_z3\":{},\"dom_decided\":{},\"rel_decided\":{},\"model_decided\":{},\"cache_hits\":{},\"crosschecks\":{},\"max_depth\":{},\"incomplete\":{},\"violations\":{},\"functions\":{},\"unsupported\":{{{}}},\"reach\":{{{}}}}}",
            if j > 0 { "," } else { "" },
            js(&jobs[j].name),
            sh.job_time[j].load(Ordering::Relaxed) as f64 / 1e6,
            t.paths,
            t.done,
            t.assumed,
            t.forks,
            t.instrs,
            t.merges,
            t.merge_aborts,
            t.asserts,
            t.asserts_const,
            t.asserts_z3,
            t.dom_decided,
            t.rel_decided,
            t.model_decided,
            t.cache_hits,
            t.crosschecks,
            t.max_depth,
            sh.job_incomplete[j].load(Ordering::Relaxed) || !uns.is_empty(),
            sh.job_viol[j].load(Ordering::Relaxed),
            funcs.len(),
            u.join(","),
            r.join(",")
        );
        allf.extend(funcs);
    }
    s.push_str("],\n\"violations\":[");
    let mut first = true;
    for o in &outs {
        for v in &o.viol {
            let tr: Vec<String> = v.trace.iter().map(|x| js(x)).collect();
            let _ = write!(s, "{}\n{{\"job\":{},\"kind\":{},\"id\":{},\"tape\":{},\"trace\":[{}]}}", if first { "" } else { "," }, js(&jobs[v.job].name), js(&v.kind), v.id, js(&v.tape), tr.join(","));
            first = false;
        }
    }
    s.push_str("],\n\"functions\":[");
    let fs: Vec<String> = allf.iter().map(|x| js(x)).collect();
    s.push_str(&fs.join(","));
    s.push_str("]}\n");
    std::fs::write(&out, s).unwrap();
    // path records for native validation: job \t tape \t digest
    let mut r = String::new();
    for o in &outs {
        for p in &o.recs {
            let _ = writeln!(r, "{}\t{}\t{}\t{:016x}", p.job, jobs[p.job].name, p.tape, p.digest);
        }
    }
    std::fs::write(format!("{}.recs", out), r).unwrap();
}
