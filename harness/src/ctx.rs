//! What one run of a check collects: counters, distinct cases, samples, violations; the journal
//! that lets the parent process find the case a crash or a hang happened in.
use crate::util::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::thread::ThreadId;
use std::time::{Duration, Instant};

pub struct Violation {
    pub key: String,
    pub title: String,
    pub detail: String,
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub work: PathBuf,
    pub verif: PathBuf,
    pub start: Instant,
    only: Option<String>,
    counters: Mutex<BTreeMap<String, u64>>,
    evals: Mutex<u64>,
    distinct: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<String>>,
    violations: Mutex<Vec<Violation>>,
    current: Mutex<HashMap<ThreadId, (i32, Duration, String, usize)>>,
    rule: Mutex<String>,
    level: Mutex<String>,
    assumptions: Mutex<Vec<String>>,
    known: Vec<(String, String)>,
}

pub const EXIT_HANG: i32 = 43;

impl Ctx {
    pub fn new(prop: &str) -> Self {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let verif = PathBuf::from(std::env::var("LAPEXMON_VERIF").unwrap_or_else(|_| "/verif".into()));
        let work = PathBuf::from(
            std::env::var("LAPEXMON_WORK").unwrap_or_else(|_| format!("/verif/work/{}", prop)),
        );
        let known = std::fs::read_to_string(verif.join("known-findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let rest = l.strip_prefix("known: property=")?;
                let (p, rest) = rest.split_once(' ')?;
                let rest = rest.strip_prefix("key=")?;
                if p != prop {
                    return None;
                }
                let (k, what) = rest.split_once(' ')?;
                Some((k.to_string(), what.to_string()))
            })
            .collect();
        Ctx {
            prop: prop.to_string(),
            seed,
            thorough,
            work,
            verif,
            start: Instant::now(),
            only: std::env::var("LAPEXMON_ONLY").ok(),
            counters: Mutex::new(BTreeMap::new()),
            evals: Mutex::new(0),
            distinct: Mutex::new(HashSet::new()),
            samples: Mutex::new(Vec::new()),
            violations: Mutex::new(Vec::new()),
            current: Mutex::new(HashMap::new()),
            rule: Mutex::new(String::new()),
            level: Mutex::new("exploration".into()),
            assumptions: Mutex::new(Vec::new()),
            known,
        }
    }

    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    /// Seconds a check aims to spend generating cases.
    pub fn budget(&self, quick: u64, thorough: u64) -> Duration {
        Duration::from_secs(if self.thorough { thorough } else { quick })
    }

    pub fn rng(&self, phase: &str, idx: u64) -> Rng {
        Rng::new(mix(&[self.seed, hash_str(&self.prop), hash_str(phase), idx]))
    }

    pub fn describe(&self, rule: &str, assumptions: &[&str]) {
        *self.rule.lock().unwrap() = rule.to_string();
        *self.assumptions.lock().unwrap() = assumptions.iter().map(|s| s.to_string()).collect();
    }

    pub fn level(&self, l: &str) {
        *self.level.lock().unwrap() = l.to_string();
    }

    pub fn evals(&self, n: u64) {
        *self.evals.lock().unwrap() += n;
    }

    pub fn distinct(&self, h: u64) {
        self.distinct.lock().unwrap().insert(h);
    }

    pub fn distinct_many(&self, hs: impl IntoIterator<Item = u64>) {
        self.distinct.lock().unwrap().extend(hs);
    }

    pub fn count(&self, key: &str, n: u64) {
        *self.counters.lock().unwrap().entry(key.to_string()).or_insert(0) += n;
    }

    pub fn get(&self, key: &str) -> u64 {
        *self.counters.lock().unwrap().get(key).unwrap_or(&0)
    }

    pub fn max(&self, key: &str, n: u64) {
        let mut c = self.counters.lock().unwrap();
        let e = c.entry(key.to_string()).or_insert(0);
        *e = (*e).max(n);
    }

    pub fn sample(&self, f: impl FnOnce() -> String) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 6 {
            let mut t = f();
            if t.len() > 1500 {
                let mut i = 1500;
                while !t.is_char_boundary(i) {
                    i -= 1;
                }
                t.truncate(i);
                t.push_str("...");
            }
            s.push(t);
        }
    }

    pub fn violation(&self, key: &str, title: &str, detail: String) {
        let mut v = self.violations.lock().unwrap();
        if v.len() < 40 && !v.iter().any(|x| x.key == key) {
            v.push(Violation { key: key.to_string(), title: title.to_string(), detail });
        }
    }

    pub fn violation_count(&self) -> usize {
        self.violations.lock().unwrap().iter().filter(|v| !self.known.iter().any(|k| k.0 == v.key)).count()
    }

    /// True when enough violations were seen and looking on is pointless.
    pub fn enough(&self) -> bool {
        self.violation_count() >= 5
    }

    pub fn over(&self, budget: Duration) -> bool {
        self.enough() || self.start.elapsed() > budget
    }

    /// Run one case under the journal. Skipped when a single other case was asked for.
    pub fn case<R>(&self, label: &str, desc: impl FnOnce() -> String, f: impl FnOnce() -> R) -> Option<R> {
        if let Some(o) = &self.only {
            if o != label {
                return None;
            }
        }
        let id = std::thread::current().id();
        {
            let mut c = self.current.lock().unwrap();
            let slot = c.get(&id).map(|x| x.3).unwrap_or(c.len());
            let clock = thread_clock();
            c.insert(id, (clock, clock_time(clock).unwrap_or_default(), label.to_string(), slot));
            let _ = std::fs::write(
                self.work.join(format!("journal-{}", slot)),
                format!("{}\n{}", label, desc()),
            );
        }
        let r = f();
        {
            let mut c = self.current.lock().unwrap();
            if let Some(e) = c.get_mut(&id) {
                e.2.clear();
                let _ = std::fs::remove_file(self.work.join(format!("journal-{}", e.3)));
            }
        }
        Some(r)
    }

    pub fn watch(&'static self, limit: Duration) {
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let c = self.current.lock().unwrap();
            for (clock, t, label, slot) in c.values() {
                // processor time: waiting for a subprocess or for a busy machine is no hang
                let used = if label.is_empty() { None } else { clock_time(*clock) };
                if used.map(|u| u.saturating_sub(*t) > limit).unwrap_or(false) {
                    let _ = std::fs::rename(
                        self.work.join(format!("journal-{}", slot)),
                        self.work.join("hang"),
                    );
                    eprintln!("case {} did not end within {:?}", label, limit);
                    std::process::exit(EXIT_HANG);
                }
            }
        });
    }

    /// Print the verdict, write the evidence, return the exit status.
    pub fn finish(&self) -> i32 {
        let vs = self.violations.lock().unwrap();
        let mut bad = 0;
        for v in vs.iter() {
            if let Some((_, what)) = self.known.iter().find(|k| k.0 == v.key) {
                println!("KNOWN-FINDING: property={} {}", self.prop, what);
                continue;
            }
            let p = write_replay(&self.verif, &self.prop, &v.key, &v.title, &v.detail);
            println!("VIOLATION property={} replay={}", self.prop, p.display());
            println!("  {}", v.title);
            bad += 1;
        }
        let counters = self.counters.lock().unwrap();
        let mut cov = String::new();
        cov.push_str(&format!("\"evaluations\": {}", self.evals.lock().unwrap()));
        cov.push_str(&format!(", \"distinct_nontrivial\": {}", self.distinct.lock().unwrap().len()));
        cov.push_str(&format!(", \"rule\": {}", jstr(&self.rule.lock().unwrap())));
        let s: Vec<String> = self.samples.lock().unwrap().iter().map(|s| jstr(s)).collect();
        cov.push_str(&format!(", \"samples\": [{}]", s.join(", ")));
        let o: Vec<String> = counters.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
        cov.push_str(&format!(", \"observed\": {{{}}}", o.join(", ")));
        let a: Vec<String> = self.assumptions.lock().unwrap().iter().map(|s| jstr(s)).collect();
        let ev = format!(
            "{{\"property\": {}, \"tier\": \"{}\", \"seed\": {}, \"level\": {}, \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
            jstr(&self.prop),
            if self.thorough { "thorough" } else { "quick" },
            self.seed,
            jstr(&self.level.lock().unwrap()),
            cov,
            a.join(", "),
            self.start.elapsed().as_secs_f64(),
            bad
        );
        let dir = self.verif.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if std::env::var("LAPEXMON_ONLY").is_err() {
            std::fs::write(dir.join(format!("{}.json", self.prop)), ev).expect("evidence file");
        }
        println!(
            "{}: {} evaluations, {} distinct, {} violations, {:.1} s",
            self.prop,
            self.evals.lock().unwrap(),
            self.distinct.lock().unwrap().len(),
            bad,
            self.start.elapsed().as_secs_f64()
        );
        if bad > 0 {
            1
        } else if *self.evals.lock().unwrap() == 0 && std::env::var("LAPEXMON_ONLY").is_err() {
            println!("nothing was observed: no verdict");
            70
        } else {
            0
        }
    }
}

pub fn write_replay(verif: &Path, prop: &str, key: &str, title: &str, detail: &str) -> PathBuf {
    let dir = verif.join("work").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{:08x}.txt", prop, hash_str(key) as u32));
    let seed = std::env::var("VERIF_SEED").unwrap_or_else(|_| "1".into());
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let _ = std::fs::write(
        &p,
        format!(
            "property: {}\n{}\nkey: {}\nrun again with: VERIF_SEED={} VERIF_TIER={} /verif/check.sh {}\n\n{}\n",
            prop, title, key, seed, tier, prop, detail
        ),
    );
    p
}
