//! SMT solver processes: a persistent incremental-free session and a one-shot portfolio.
use crate::expr::{Big, Model};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Sat {
    Sat(Model),
    Unsat,
    Unknown,
}

#[derive(Default)]
pub struct Stats {
    pub queries: AtomicU64,
    pub cache_hits: AtomicU64,
    pub unsat: AtomicU64,
    pub sat: AtomicU64,
    pub unknown: AtomicU64,
    pub micros: AtomicU64,
    pub errors: AtomicU64,
}

#[derive(Default)]
pub struct Shared {
    pub stats: Stats,
    pub cache: Mutex<HashMap<u64, Sat>>,
}

pub fn hash(s: &str) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

struct Proc {
    child: Child,
    rx: mpsc::Receiver<String>,
}

fn spawn(bin: &str, args: &[&str]) -> Proc {
    let mut child = Command::new(bin)
        .args(args)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| panic!("cannot start {bin}: {e}"));
    let out = child.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            match l {
                Ok(l) => {
                    if tx.send(l).is_err() {
                        return;
                    }
                }
                Err(_) => return,
            }
        }
    });
    Proc { child, rx }
}

impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub fn parse_model(text: &str) -> Option<Model> {
    // ((|a| 5) (|b| (- 7)))
    let b: Vec<char> = text.chars().collect();
    let mut m = Model::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '|' {
            let mut j = i + 1;
            while j < b.len() && b[j] != '|' {
                j += 1;
            }
            let name: String = b[i + 1..j].iter().collect();
            i = j + 1;
            let mut neg = false;
            let mut num = String::new();
            while i < b.len() && b[i] != '|' {
                let c = b[i];
                if c == '-' {
                    neg = true;
                } else if c.is_ascii_digit() {
                    num.push(c);
                } else if c == '/' || c == '.' {
                    return None;
                } else if c == ')' && !num.is_empty() {
                    break;
                }
                i += 1;
            }
            let v: Big = num.parse().ok()?;
            m.insert(name, if neg { -v } else { v });
        } else {
            i += 1;
        }
    }
    Some(m)
}

pub struct Session {
    p: Option<Proc>,
    pub shared: Arc<Shared>,
}

pub const Z3N: &str = "z3-new";

impl Session {
    pub fn new(shared: Arc<Shared>) -> Session {
        Session { p: None, shared }
    }
    /// `text` = declarations and assertions over integers
    pub fn check(&mut self, text: &str, names: &[String], ms: u64) -> Sat {
        let h = hash(text);
        if let Some(r) = self.shared.cache.lock().unwrap().get(&h) {
            self.shared.stats.cache_hits.fetch_add(1, Ordering::Relaxed);
            return r.clone();
        }
        let t0 = Instant::now();
        let r = self.run(text, names, ms);
        let st = &self.shared.stats;
        st.queries.fetch_add(1, Ordering::Relaxed);
        st.micros.fetch_add(t0.elapsed().as_micros() as u64, Ordering::Relaxed);
        match &r {
            Sat::Sat(_) => st.sat.fetch_add(1, Ordering::Relaxed),
            Sat::Unsat => st.unsat.fetch_add(1, Ordering::Relaxed),
            Sat::Unknown => st.unknown.fetch_add(1, Ordering::Relaxed),
        };
        if !matches!(r, Sat::Unknown) {
            self.shared.cache.lock().unwrap().insert(h, r.clone());
        }
        r
    }
    fn run(&mut self, text: &str, names: &[String], ms: u64) -> Sat {
        if self.p.is_none() {
            self.p = Some(spawn(Z3N, &["-in", "-smt2"]));
        }
        let mut q = format!("(reset)\n(set-option :timeout {})\n(set-logic QF_NIA)\n", ms);
        q.push_str(text);
        q.push_str("(check-sat)\n");
        q.push_str("(echo \"@@\")\n");
        let p = self.p.as_mut().unwrap();
        let sin = p.child.stdin.as_mut().unwrap();
        if sin.write_all(q.as_bytes()).and_then(|_| sin.flush()).is_err() {
            self.p = None;
            return Sat::Unknown;
        }
        let lines = match self.read_until(ms + 3000) {
            Some(l) => l,
            None => {
                self.p = None;
                return Sat::Unknown;
            }
        };
        if let Some(e) = lines.iter().find(|l| l.contains("(error")) {
            eprintln!("solver error: {e}");
            self.shared.stats.errors.fetch_add(1, Ordering::Relaxed);
            return Sat::Unknown;
        }
        match lines.first().map(|s| s.as_str()) {
            Some("unsat") => Sat::Unsat,
            Some("sat") => {
                if names.is_empty() {
                    return Sat::Sat(Model::new());
                }
                let mut q = String::from("(get-value (");
                for n in names {
                    q.push_str(&format!("|{}| ", n));
                }
                q.push_str("))\n(echo \"@@\")\n");
                let p = self.p.as_mut().unwrap();
                let sin = p.child.stdin.as_mut().unwrap();
                let _ = sin.write_all(q.as_bytes()).and_then(|_| sin.flush());
                match self.read_until(3000) {
                    Some(l) => match parse_model(&l.join(" ")) {
                        Some(m) => Sat::Sat(m),
                        None => Sat::Unknown,
                    },
                    None => {
                        self.p = None;
                        Sat::Unknown
                    }
                }
            }
            _ => Sat::Unknown,
        }
    }
    fn read_until(&mut self, ms: u64) -> Option<Vec<String>> {
        let p = self.p.as_mut().unwrap();
        let end = Instant::now() + Duration::from_millis(ms);
        let mut v = vec![];
        loop {
            let left = end.saturating_duration_since(Instant::now());
            match p.rx.recv_timeout(left) {
                Ok(l) => {
                    if l == "@@" || l == "\"@@\"" {
                        return Some(v);
                    }
                    v.push(l);
                }
                Err(_) => return None,
            }
        }
    }
}

/// Run the portfolio on one query. int_text / real_text: declarations + assertions.
pub fn portfolio(int_text: &str, real_text: &str, names: &[String], secs: u64, shared: &Shared) -> (Sat, String) {
    let t0 = Instant::now();
    let getv = {
        let mut q = String::from("(get-value (");
        for n in names {
            q.push_str(&format!("|{}| ", n));
        }
        q.push_str("))\n");
        if names.is_empty() {
            String::new()
        } else {
            q
        }
    };
    let ms = secs * 1000;
    let z = |logic: &str, body: &str, cmd: &str, gv: bool| {
        format!(
            "(set-option :timeout {ms})\n(set-logic {logic})\n{body}{cmd}\n(echo \"@@\")\n{}(echo \"@@\")\n",
            if gv { &getv } else { "" }
        )
    };
    let cv = |logic: &str, body: &str, gv: bool| {
        format!(
            "(set-option :produce-models true)\n(set-logic {logic})\n{body}(check-sat)\n(echo \"@@\")\n{}(echo \"@@\")\n",
            if gv { &getv } else { "" }
        )
    };
    let tl = format!("--tlimit={}", ms);
    let jobs: Vec<(&str, &str, Vec<&str>, String, bool)> = vec![
        ("z3-new-nra", Z3N, vec!["-in", "-smt2"], z("QF_NRA", real_text, "(check-sat-using (then simplify propagate-values solve-eqs purify-arith qfnra-nlsat))", false), false),
        ("z3-new-nia", Z3N, vec!["-in", "-smt2"], z("QF_NIA", int_text, "(check-sat)", true), true),
        ("z3-new-smt", Z3N, vec!["-in", "-smt2", "smt.arith.solver=6"], z("ALL", int_text, "(check-sat-using smt)", true), true),
        ("cvc5-nia", "cvc5", vec!["--lang=smt2", "--nl-ext-tplanes", &tl], cv("QF_NIA", int_text, true), true),
        ("z3-nra", "z3", vec!["-in", "-smt2"], z("QF_NRA", real_text, "(check-sat)", false), false),
        ("cvc5-nra", "cvc5", vec!["--lang=smt2", "--nl-cov", &tl], cv("QF_NRA", real_text, false), false),
    ];
    let (tx, rx) = mpsc::channel::<(usize, Vec<String>)>();
    let mut kids = vec![];
    let n = jobs.len();
    let mut live = 0;
    for (i, (_, bin, args, text, _)) in jobs.iter().enumerate() {
        if real_text.is_empty() && !jobs[i].4 {
            continue;
        }
        let mut c = match Command::new(bin).args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
            Ok(c) => c,
            Err(_) => continue,
        };
        live += 1;
        let mut sin = c.stdin.take().unwrap();
        let text = text.clone();
        std::thread::spawn(move || {
            let _ = sin.write_all(text.as_bytes());
        });
        let out = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            let mut v = vec![];
            for l in BufReader::new(out).lines() {
                match l {
                    Ok(l) => v.push(l),
                    Err(_) => break,
                }
            }
            let _ = tx.send((i, v));
        });
        kids.push(c);
    }
    drop(tx);
    let end = Instant::now() + Duration::from_secs(secs + 2);
    let mut res = (Sat::Unknown, String::from("none"));
    let mut done = 0;
    while done < live.min(n) {
        let left = end.saturating_duration_since(Instant::now());
        match rx.recv_timeout(left) {
            Ok((i, v)) => {
                done += 1;
                if v.first().map(|l| l.contains("(error")).unwrap_or(true) {
                    continue;
                }
                match v.first().map(|s| s.as_str()) {
                    Some("unsat") => {
                        res = (Sat::Unsat, jobs[i].0.to_string());
                        break;
                    }
                    Some("sat") if jobs[i].4 => {
                        let body: Vec<String> =
                            v[1..].iter().filter(|l| !l.contains("@@")).cloned().collect();
                        if let Some(m) = parse_model(&body.join(" ")) {
                            res = (Sat::Sat(m), jobs[i].0.to_string());
                            break;
                        }
                    }
                    _ => {}
                }
            }
            Err(_) => break,
        }
    }
    for k in kids.iter_mut() {
        let _ = k.kill();
        let _ = k.wait();
    }
    let st = &shared.stats;
    st.queries.fetch_add(1, Ordering::Relaxed);
    st.micros.fetch_add(t0.elapsed().as_micros() as u64, Ordering::Relaxed);
    match &res.0 {
        Sat::Sat(_) => st.sat.fetch_add(1, Ordering::Relaxed),
        Sat::Unsat => st.unsat.fetch_add(1, Ordering::Relaxed),
        Sat::Unknown => st.unknown.fetch_add(1, Ordering::Relaxed),
    };
    res
}
