mod expr;
mod hooks;
mod interp;
mod llvm;
mod solver;

use interp::*;
use llvm::{Link, Program};
use solver::{Sat, Session, Shared};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmodel(m: &expr::Model) -> String {
    let b: BTreeMap<_, _> = m.iter().collect();
    let v: Vec<String> = b.iter().map(|(k, x)| format!("{}:\"{}\"", jstr(k), x)).collect();
    format!("{{{}}}", v.join(","))
}
fn jchoices(c: &[(String, u64)]) -> String {
    let v: Vec<String> = c.iter().map(|(k, x)| format!("[{},{}]", jstr(k), x)).collect();
    format!("[{}]", v.join(","))
}

#[derive(Default)]
struct Acc {
    stack: Vec<Item>,
    active: usize,
    paths: u64,
    done: u64,
    panics: u64,
    infeasible: u64,
    assumed: u64,
    forks: u64,
    steps: u64,
    problems: BTreeMap<String, u64>,
    checks: BTreeMap<String, (u64, u64, u64)>,
    covers: BTreeMap<String, u64>,
    violations: Vec<Violation>,
    vlabels: BTreeMap<String, u64>,
    hard: Vec<Hard>,
    samples: Vec<String>,
    fns: BTreeSet<String>,
    panic_msgs: BTreeMap<String, u64>,
}

fn main() {
    let mut entry = String::new();
    let mut files = vec![];
    let mut threads = 8;
    let mut opts = Opts { fork_ms: 1500, check_ms: 3000, max_steps: 400_000_000, max_forks: 4000, trace: false };
    let mut secs = 600u64;
    let mut hard_secs = 60u64;
    let mut stubs = vec![];
    let mut nsamples = 6usize;
    let mut max_paths = 1_000_000u64;
    let mut prefix: Vec<u16> = vec![];
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        let mut nx = || a.next().expect("argument");
        match x.as_str() {
            "--entry" => entry = nx(),
            "--threads" => threads = nx().parse().unwrap(),
            "--fork-ms" => opts.fork_ms = nx().parse().unwrap(),
            "--check-ms" => opts.check_ms = nx().parse().unwrap(),
            "--time" => secs = nx().parse().unwrap(),
            "--hard" => hard_secs = nx().parse().unwrap(),
            "--samples" => nsamples = nx().parse().unwrap(),
            "--max-paths" => max_paths = nx().parse().unwrap(),
            "--max-steps" => opts.max_steps = nx().parse().unwrap(),
            "--trace" => opts.trace = true,
            "--prefix" => prefix = nx().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--stub" => {
                let v = nx();
                let (l, r) = v.split_once('=').unwrap();
                stubs.push((l.to_string(), r.to_string()));
            }
            "--files" => {
                let t = std::fs::read_to_string(nx()).unwrap();
                files.extend(t.lines().map(|s| s.to_string()));
            }
            _ => files.push(x),
        }
    }
    let t0 = Instant::now();
    let prog = Arc::new(Program::load(&files));
    let tload = t0.elapsed().as_secs_f64();
    let hooks = Arc::new(hooks::Hooks { stubs });
    let opts = Arc::new(opts);
    let shared = Arc::new(Shared::default());
    let acc = Arc::new((Mutex::new(Acc::default()), Condvar::new()));
    acc.0.lock().unwrap().stack.push(Item { prefix, sites: vec![], model: None });
    let stop = Arc::new(AtomicBool::new(false));
    let entry_m = match prog.fn_index.get(&entry) {
        Some(m) => *m,
        None => {
            println!("{{\"error\":\"entry {entry} not found\"}}");
            std::process::exit(3);
        }
    };
    let deadline = t0 + Duration::from_secs(secs);
    let mut hs = vec![];
    for _ in 0..threads {
        let (prog, hooks, opts, shared, acc, stop, entry) =
            (prog.clone(), hooks.clone(), opts.clone(), shared.clone(), acc.clone(), stop.clone(), entry.clone());
        let th = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            let sess = Session::new(shared.clone());
            let mut m = Machine::new(prog.clone(), hooks, opts.clone(), sess);
            let e = m.fn_ref(entry_m, &entry);
            let mut rng = 0x9e3779b97f4a7c15u64;
            loop {
                let item = {
                    let mut g = acc.0.lock().unwrap();
                    loop {
                        if stop.load(Ordering::SeqCst) {
                            break None;
                        }
                        if let Some(i) = g.stack.pop() {
                            g.active += 1;
                            break Some(i);
                        }
                        if g.active == 0 {
                            break None;
                        }
                        g = acc.1.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
                    }
                };
                let item = match item {
                    Some(i) => i,
                    None => {
                        acc.1.notify_all();
                        break;
                    }
                };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.run(e, &item)));
                let r = match r {
                    Ok(r) => r,
                    Err(p) => {
                        let s = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
                        Stop::Unsupported(format!("engine: {}", s.unwrap_or_default()))
                    }
                };
                let mut out = std::mem::take(&mut m.out);
                let full = m.full_model();
                let mut g = acc.0.lock().unwrap();
                g.active -= 1;
                g.paths += 1;
                g.forks += out.forks as u64;
                g.steps += out.steps;
                for f in &m.fns {
                    if f.calls > 0 && f.dem.contains("astroport") && !g.fns.contains(&f.dem) {
                        g.fns.insert(f.dem.clone());
                    }
                }
                match &r {
                    Stop::Done => g.done += 1,
                    Stop::Panic(s) => {
                        g.panics += 1;
                        *g.panic_msgs.entry(s.chars().take(200).collect()).or_default() += 1;
                    }
                    Stop::Infeasible => g.infeasible += 1,
                    Stop::Assume => g.assumed += 1,
                    Stop::Unsupported(s) => {
                        if opts.trace {
                            eprintln!("unsupported {s} path {:?}", item.prefix);
                        }
                        *g.problems.entry(format!("unsupported: {s}")).or_default() += 1
                    }
                    Stop::Limit(s) => *g.problems.entry(format!("limit: {s}")).or_default() += 1,
                }
                for (l, k) in out.checks.drain(..) {
                    let e = g.checks.entry(l).or_default();
                    if k == 0 {
                        e.0 += 1
                    } else {
                        e.1 += 1
                    }
                }
                for c in out.covers.drain(..) {
                    *g.covers.entry(c).or_default() += 1;
                }
                for v in out.violations.drain(..) {
                    let n = g.vlabels.entry(v.label.clone()).or_default();
                    *n += 1;
                    if *n <= 4 {
                        g.violations.push(v);
                    }
                }
                for h in out.hard.drain(..) {
                    g.checks.entry(h.label.clone()).or_default().2 += 1;
                    g.hard.push(h);
                }
                // keep a few complete paths as samples for comparison with the compiled code
                if let (Stop::Done, Some(md)) = (&r, &full) {
                    rng = rng.wrapping_mul(6364136223846793005).wrapping_add(g.paths);
                    let k = g.samples.len();
                    let slot = if k < nsamples {
                        Some(k)
                    } else if nsamples > 0 && (rng >> 33) % g.done.max(1) < nsamples as u64 {
                        Some((rng >> 20) as usize % nsamples)
                    } else {
                        None
                    };
                    if let Some(s) = slot {
                        let mut memo = std::collections::HashMap::new();
                        let mut ob = vec![];
                        let mut ok = true;
                        for (l, id) in &out.obs {
                            match m.ctx.eval(*id, md, &mut memo) {
                                Some(v) => ob.push(format!("[{},\"{}\"]", jstr(l), v)),
                                None => ok = false,
                            }
                        }
                        let ids = m.ctx.pc.clone();
                        if !m.ctx.holds(&ids, md) {
                            ok = false;
                        }
                        if ok {
                            let t = format!(
                                "{{\"model\":{},\"choices\":{},\"obs\":[{}]}}",
                                jmodel(md),
                                jchoices(&out.choices),
                                ob.join(",")
                            );
                            if s < k {
                                g.samples[s] = t
                            } else {
                                g.samples.push(t)
                            }
                        }
                    }
                }
                let alts = std::mem::take(&mut out.alts);
                g.stack.extend(alts);
                if g.paths >= max_paths {
                    stop.store(true, Ordering::SeqCst);
                }
                if Instant::now() > deadline {
                    stop.store(true, Ordering::SeqCst);
                }
                // enough counterexamples
                if g.violations.len() >= 8 {
                    stop.store(true, Ordering::SeqCst);
                }
                drop(g);
                acc.1.notify_all();
            }
        });
        hs.push(th.unwrap());
    }
    for h in hs {
        let _ = h.join();
    }
    let texp = t0.elapsed().as_secs_f64();
    let mut g = acc.0.lock().unwrap();
    let left = g.stack.len();
    // hard queries
    let hard = std::mem::take(&mut g.hard);
    let mut uniq: Vec<Hard> = vec![];
    let mut seen = std::collections::HashSet::new();
    for h in hard {
        if seen.insert(solver::hash(&h.int)) {
            uniq.push(h);
        }
    }
    let nhard = uniq.len();
    let mut undecided: BTreeMap<String, u64> = BTreeMap::new();
    let mut how: BTreeMap<String, u64> = BTreeMap::new();
    if !uniq.is_empty() {
        let work = Arc::new(Mutex::new(uniq));
        let res = Arc::new(Mutex::new(vec![]));
        let n = 2.min(nhard);
        let skip = !g.violations.is_empty();
        let mut ths = vec![];
        for _ in 0..n {
            let (w, r, sh) = (work.clone(), res.clone(), shared.clone());
            ths.push(std::thread::spawn(move || loop {
                let h = match w.lock().unwrap().pop() {
                    Some(h) => h,
                    None => return,
                };
                let lim = if skip { hard_secs.min(5) } else { hard_secs };
                let x = if Instant::now() > deadline {
                    (Sat::Unknown, "time".to_string())
                } else {
                    solver::portfolio(&h.int, &h.real, &h.names, lim, &sh)
                };
                r.lock().unwrap().push((h, x));
            }));
        }
        for t in ths {
            let _ = t.join();
        }
        for (h, (s, by)) in Arc::try_unwrap(res).ok().unwrap().into_inner().unwrap() {
            match s {
                Sat::Unsat => {
                    g.checks.entry(h.label.clone()).or_default().1 += 1;
                    *how.entry(by).or_default() += 1;
                }
                Sat::Unknown => *undecided.entry(h.label.clone()).or_default() += 1,
                Sat::Sat(m) => {
                    let mut md = h.base.clone().unwrap_or_else(|| h.lows.clone());
                    for (k, v) in m {
                        md.insert(k, v);
                    }
                    let n = g.vlabels.entry(h.label.clone()).or_default();
                    *n += 1;
                    if *n <= 4 {
                        g.violations.push(Violation { label: h.label.clone(), model: md, choices: h.choices.clone(), note: by });
                    }
                }
            }
        }
    }
    if std::env::var("SX_DUMP_HARD").is_ok() {}
    let st = &shared.stats;
    let jm = |m: &BTreeMap<String, u64>| {
        let v: Vec<String> = m.iter().map(|(k, n)| format!("{}:{}", jstr(k), n)).collect();
        format!("{{{}}}", v.join(","))
    };
    let checks: Vec<String> = g
        .checks
        .iter()
        .map(|(k, v)| format!("{}:{{\"trivial\":{},\"proved\":{},\"hard\":{}}}", jstr(k), v.0, v.1, v.2))
        .collect();
    let viol: Vec<String> = g
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"label\":{},\"model\":{},\"choices\":{},\"note\":{}}}",
                jstr(&v.label),
                jmodel(&v.model),
                jchoices(&v.choices),
                jstr(&v.note)
            )
        })
        .collect();
    let fns: Vec<String> = g.fns.iter().map(|f| jstr(f)).collect();
    println!(
        "{{\"entry\":{},\"paths\":{},\"completed\":{},\"reverted\":{},\"infeasible\":{},\"assumed_away\":{},\"left\":{},\"forks\":{},\"steps\":{},\"queries\":{},\"cache_hits\":{},\"unsat\":{},\"sat\":{},\"unknown\":{},\"solver_s\":{:.2},\"errors\":{},\"load_s\":{:.2},\"explore_s\":{:.2},\"total_s\":{:.2},\"hard\":{},\"hard_by\":{},\"undecided\":{},\"problems\":{},\"panics\":{},\"checks\":{{{}}},\"covers\":{},\"violations\":[{}],\"samples\":[{}],\"functions\":[{}]}}",
        jstr(&entry),
        g.paths,
        g.done,
        g.panics,
        g.infeasible,
        g.assumed,
        left,
        g.forks,
        g.steps,
        st.queries.load(Ordering::SeqCst),
        st.cache_hits.load(Ordering::SeqCst),
        st.unsat.load(Ordering::SeqCst),
        st.sat.load(Ordering::SeqCst),
        st.unknown.load(Ordering::SeqCst),
        st.micros.load(Ordering::SeqCst) as f64 / 1e6,
        st.errors.load(Ordering::SeqCst),
        tload,
        texp,
        t0.elapsed().as_secs_f64(),
        nhard,
        jm(&how),
        jm(&undecided),
        jm(&g.problems),
        jm(&g.panic_msgs),
        checks.join(","),
        jm(&g.covers),
        viol.join(","),
        g.samples.join(","),
        fns.join(",")
    );
    std::process::exit(0);
}
