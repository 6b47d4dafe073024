//! Batches of runs, reports, replay files and evidence.
use crate::child::{self, Outcome};
use crate::exec::History;
use crate::oracle::{self, Facts, Viol};
use crate::plan::*;
use crate::rng::{hash_str, mix};
use crate::{gen, shrink};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

pub fn run_seed(master: u64, prop: &str, idx: u64) -> u64 {
    mix(mix(master ^ 0x9e37_79b9) ^ hash_str(prop) ^ idx.wrapping_mul(0x2545_f491_4f6c_dd1d))
}

pub struct Verdict {
    pub out: Outcome,
    pub base: Option<Outcome>,
    pub viol: Option<Viol>,
    pub facts: Facts,
    pub broken: Option<String>,
}

fn run_once(p: &Plan, log: bool) -> Outcome {
    let o = child::run(p, log);
    match o {
        // an outside kill (memory pressure): once more
        Outcome::Broken(_) => child::run(p, log),
        o => o,
    }
}

pub fn judge(p: &Plan, log: bool) -> Verdict {
    let out = run_once(p, log);
    let base = oracle::baseline(p).map(|b| run_once(&b, false));
    let mut facts = Facts::default();
    let broken = [Some(&out), base.as_ref()].into_iter().flatten().find_map(|o| match o {
        Outcome::Broken(s) => Some(s.clone()),
        _ => None,
    });
    let viol = if broken.is_some() { None } else { oracle::check(p, &out, base.as_ref(), &mut facts).err() };
    Verdict { out, base, viol, facts, broken }
}

#[derive(Serialize, Deserialize, Default)]
pub struct Batch {
    pub runs: u64,
    pub executions: u64,
    pub nontrivial: u64,
    pub traces: Vec<u64>,
    pub sim_us: u64,
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub futex: u64,
    pub atomics: u64,
    pub randoms: u64,
    pub units: u64,
    pub errors: u64,
    pub reads: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub ends: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub found: Option<(u64, String, String)>,
    pub twice: u64,
    pub unequal: Vec<u64>,
    pub broken: Vec<String>,
    pub digest: u64,
    pub known: BTreeMap<String, u64>,
}

impl Batch {
    fn merge(&mut self, b: Batch) {
        self.runs += b.runs;
        self.executions += b.executions;
        self.nontrivial += b.nontrivial;
        self.traces.extend(b.traces);
        self.sim_us += b.sim_us;
        self.steps += b.steps;
        self.switches += b.switches;
        self.preempts += b.preempts;
        self.futex += b.futex;
        self.atomics += b.atomics;
        self.randoms += b.randoms;
        self.units += b.units;
        self.errors += b.errors;
        self.reads += b.reads;
        for (k, v) in b.faults {
            *self.faults.entry(k).or_default() += v;
        }
        for (k, v) in b.probes {
            *self.probes.entry(k).or_default() += v;
        }
        for (k, v) in b.ends {
            *self.ends.entry(k).or_default() += v;
        }
        for (k, v) in b.known {
            *self.known.entry(k).or_default() += v;
        }
        self.samples.extend(b.samples);
        match (&self.found, &b.found) {
            (Some((i, ..)), Some((j, ..))) if i <= j => (),
            (_, None) => (),
            _ => self.found = b.found,
        }
        self.twice += b.twice;
        self.unequal.extend(b.unequal);
        self.broken.extend(b.broken);
        self.digest ^= b.digest;
    }

    fn account(&mut self, p: &Plan, o: &Outcome) {
        self.executions += 1;
        for l in p.tasks.iter().flat_map(|t| &t.lanes).chain(&p.nested) {
            for d in &l.dmg {
                *self.faults.entry(format!("stored:{}", d.name())).or_default() += 1;
            }
        }
        let Some(h) = o.hist() else { return };
        self.sim_us += h.sim_us;
        self.steps += h.steps;
        self.switches += h.switches;
        self.preempts += h.preempts;
        self.futex += h.futex_waits;
        self.atomics += h.atomics;
        self.randoms += h.randoms;
        if h.preempts > 0 {
            *self.faults.entry("preemption_inside_library".into()).or_default() += h.preempts;
        }
        for l in &h.lanes {
            self.units += l.units;
            self.errors += l.open_err.iter().count() as u64
                + l.items.iter().filter(|i| matches!(i.v, crate::exec::ItemV::Err(_))).count() as u64;
            self.reads += l.src.reads;
            *self.ends.entry(l.end.split(':').next().unwrap().to_string()).or_default() += 1;
            if l.end == "abandoned" {
                *self.faults.entry("reader_abandoned".into()).or_default() += 1;
            }
            for (k, v) in &l.src.fired {
                *self.faults.entry(k.clone()).or_default() += v;
            }
        }
    }
}

fn digest(o: &Outcome) -> u64 {
    match o {
        Outcome::Hist(h) => {
            let mut h: History = (**h).clone();
            h.log.clear();
            hash_str(&serde_json::to_string(&h).unwrap())
        }
        o => hash_str(&format!("{o:?}")),
    }
}

/// Known, unrepaired findings: (property, class, text in the description).
pub fn known_findings() -> Vec<(String, String, String)> {
    let path = std::env::var("POSIM_ROOT").unwrap_or_else(|_| "/verif".into()) + "/known-findings.txt";
    let text = std::fs::read_to_string(path).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (prop, l) = l.split_once(" class=")?;
            let (class, text) = l.split_once(" text=")?;
            Some((prop.trim().into(), class.trim().into(), text.trim().into()))
        })
        .collect()
}

fn is_known(known: &[(String, String, String)], prop: &str, v: &Viol) -> Option<String> {
    known.iter().find(|(p, c, t)| p == prop && *c == v.class && v.detail.contains(t.as_str())).map(|k| k.2.clone())
}

pub struct Opts {
    pub prop: String,
    pub master: u64,
    pub runs: u64,
    pub workers: u64,
    pub time: Duration,
    /// one of so many runs is executed twice
    pub twice: u64,
    pub keep_going: bool,
    /// first run
    pub from: u64,
}

fn shared_word() -> &'static AtomicU64 {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        &*(p as *const AtomicU64)
    }
}

fn worker(o: &Opts, w: u64, stop_at: &AtomicU64, t0: Instant) -> Batch {
    let mut b = Batch::default();
    let known = known_findings();
    let mut idx = o.from + w;
    while idx < o.runs && idx < stop_at.load(SeqCst) && t0.elapsed() < o.time {
        let p = gen::plan(&o.prop, run_seed(o.master, &o.prop, idx));
        let v = judge(&p, false);
        b.runs += 1;
        b.account(&p, &v.out);
        if let Some(base) = &v.base {
            b.executions += 1;
            let _ = base;
        }
        b.digest ^= mix(digest(&v.out) ^ idx);
        for (k, n) in &v.facts.probes {
            *b.probes.entry(k.clone()).or_default() += n;
        }
        if v.facts.nontrivial {
            b.nontrivial += 1;
            if let Some(h) = v.out.hist() {
                b.traces.push(h.trace ^ mix(hash_str(&serde_json::to_string(&p).unwrap())));
                if b.samples.len() < 1 && idx < 64 {
                    let s = serde_json::to_value(&p).unwrap();
                    let text = s.to_string();
                    if text.len() < 6000 {
                        b.samples.push(json!({"index": idx, "plan": s, "ends": h.lanes.iter().map(|l| format!("catalogue {}: {} units, {}", l.lane, l.units, l.end)).collect::<Vec<_>>()}));
                    }
                }
            }
        }
        if let Some(e) = v.broken {
            b.broken.push(format!("run {idx}: {e}"));
        }
        if o.twice > 0 && ((idx - o.from) / o.workers) % o.twice == 0 && v.viol.is_none() {
            b.twice += 1;
            let again = run_once(&p, false);
            if digest(&again) != digest(&v.out) {
                b.unequal.push(idx);
            }
        }
        if let Some(x) = v.viol {
            if let Some(k) = is_known(&known, &o.prop, &x) {
                *b.known.entry(format!("{}: {k}", x.class)).or_default() += 1;
            } else {
                if b.found.is_none() {
                    b.found = Some((idx, x.class, x.detail));
                }
                if !o.keep_going {
                    stop_at.fetch_min(idx, SeqCst);
                    break;
                }
            }
        }
        idx += o.workers;
    }
    b
}

pub fn batch(o: &Opts) -> Result<Batch, String> {
    let stop_at = shared_word();
    stop_at.store(u64::MAX, SeqCst);
    let t0 = Instant::now();
    let mut kids = vec![];
    for w in 0..o.workers {
        unsafe {
            let mut fds = [0i32; 2];
            if libc::pipe(fds.as_mut_ptr()) != 0 {
                return Err("pipe".into());
            }
            let pid = libc::fork();
            if pid < 0 {
                return Err("fork".into());
            }
            if pid == 0 {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let b = worker(o, w, stop_at, t0);
                let mut f = std::fs::File::from_raw_fd(fds[1]);
                let _ = f.write_all(&serde_json::to_vec(&b).unwrap());
                let _ = f.flush();
                libc::_exit(0);
            }
            libc::close(fds[1]);
            kids.push((pid, std::fs::File::from_raw_fd(fds[0])));
        }
    }
    let mut all = Batch::default();
    let mut bad = None;
    for (pid, mut f) in kids {
        let mut v = vec![];
        let _ = f.read_to_end(&mut v);
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        match serde_json::from_slice::<Batch>(&v) {
            Ok(b) => all.merge(b),
            Err(e) => bad = Some(format!("worker {pid} gave no result (status {st}): {e}")),
        }
    }
    match bad {
        Some(e) => Err(e),
        None => Ok(all),
    }
}

// --------------------------------------------------------------------------------------- reporting

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub detail: String,
    pub verif_seed: u64,
    pub run: u64,
    pub trace: String,
    pub shrink_tries: u64,
    pub plan: Plan,
    /// the stored bytes of every catalogue, for reading
    pub stored: Vec<String>,
    pub log: Vec<String>,
    pub original: Plan,
}

/// Exit code of a replay: 1 reproduced, 0 no violation, 3 something else.
pub fn replay(path: &str) -> i32 {
    let r: Replay = match std::fs::read(path).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("posim: cannot read {path}: {e}");
            return 2;
        }
    };
    let v = judge(&r.plan, true);
    if let Some(e) = v.broken {
        eprintln!("posim: {e}");
        return 2;
    }
    match v.viol {
        None => {
            println!("no violation");
            0
        }
        Some(x) if x.class == r.class && v.out.trace() == r.trace => {
            println!("VIOLATION property={} replay={}", r.property, path);
            println!("  {}: {}", x.class, x.detail);
            1
        }
        Some(x) => {
            println!("a different execution: {} (trace {}): {}", x.class, v.out.trace(), x.detail);
            3
        }
    }
}

fn stored(p: &Plan) -> Vec<String> {
    p.tasks
        .iter()
        .flat_map(|t| &t.lanes)
        .chain(&p.nested)
        .map(|l| match crate::exec::Data::of(l, 0) {
            crate::exec::Data::Fixed(b) => String::from_utf8_lossy(&b).into_owned(),
            _ => "(endless)".into(),
        })
        .collect()
}

fn write_replay(root: &str, o: &Opts, idx: u64, class: &str, plan: &Plan, original: &Plan, tries: u64) -> Option<(String, String)> {
    let v = judge(plan, true);
    let x = v.viol.filter(|x| x.class == class)?;
    let log = v.out.hist().map(|h| h.log.clone()).unwrap_or_default();
    let r = Replay {
        property: o.prop.clone(),
        class: class.into(),
        detail: x.detail.clone(),
        verif_seed: o.master,
        run: idx,
        trace: v.out.trace(),
        shrink_tries: tries,
        plan: plan.clone(),
        stored: stored(plan),
        log,
        original: original.clone(),
    };
    let dir = format!("{root}/replays");
    std::fs::create_dir_all(&dir).ok()?;
    let path = format!("{dir}/{}-{}-{idx}.json", o.prop, o.master);
    std::fs::write(&path, serde_json::to_vec_pretty(&r).ok()?).ok()?;
    // in a fresh process it must fail the same way
    let exe = std::env::current_exe().ok()?;
    let st = std::process::Command::new(exe).args(["replay", &path]).stdout(std::process::Stdio::null()).status().ok()?;
    if st.code() == Some(1) {
        Some((path, x.detail))
    } else {
        None
    }
}

pub fn check(o: &Opts, tier: &str) -> i32 {
    let root = std::env::var("POSIM_ROOT").unwrap_or_else(|_| "/verif".into());
    let t0 = Instant::now();
    println!("posim: property {} seed {} tier {tier}: up to {} runs, {} workers", o.prop, o.master, o.runs, o.workers);
    let mut b = match batch(o) {
        Ok(b) => b,
        Err(e) => {
            eprintln!("posim: {e}");
            return 2;
        }
    };
    if o.prop == "C01" && b.found.is_none() {
        // the same bytes, schedule and seeds gave two different results
        if let Some(i) = b.unequal.iter().min() {
            b.found = Some((*i, "nondeterministic".into(), "two executions of the same run differ".into()));
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut violations = 0;
    for (k, n) in &b.known {
        println!("KNOWN-FINDING: property={} {k} ({n} runs)", o.prop);
    }
    let mut attempts = 0;
    while let Some((idx, class, detail)) = b.found.take() {
        violations = 1;
        let original = gen::plan(&o.prop, run_seed(o.master, &o.prop, idx));
        println!("posim: run {idx}: {class}: {detail}");
        let same = |p: &Plan| judge(p, false).viol.is_some_and(|v| v.class == class);
        // the schedule as recorded choices
        let mut start = original.clone();
        if let Some(h) = judge(&original, false).out.hist() {
            let mut listed = original.clone();
            listed.sched.list = Some(h.choices.clone());
            if same(&listed) {
                start = listed;
            }
        }
        let (small, tries) = shrink::shrink(&start, Duration::from_secs(std::env::var("POSIM_SHRINK").ok().and_then(|v| v.parse().ok()).unwrap_or(60)), same);
        let found = write_replay(&root, o, idx, &class, &small, &original, tries)
            .or_else(|| write_replay(&root, o, idx, &class, &original, &original, tries));
        match found {
            Some((path, detail)) => {
                println!("posim: minimised in {tries} runs: {class}: {detail}");
                println!("VIOLATION property={} replay={path}", o.prop);
                code = 1;
            }
            None => {
                eprintln!("posim: the violation of run {idx} does not replay: something outside the simulation is in play");
                code = 2;
            }
        }
        attempts += 1;
        if code != 2 || attempts == 4 {
            break;
        }
        // look for one that does
        let next = Opts { prop: o.prop.clone(), from: idx + 1, ..*o };
        match batch(&next) {
            Ok(n) => b.merge(n),
            Err(_) => break,
        }
    }
    if code == 0 && !b.broken.is_empty() {
        eprintln!("posim: harness failures: {:?}", &b.broken[..b.broken.len().min(5)]);
        code = 2;
    }
    if code == 0 && !b.unequal.is_empty() {
        // each of the executions was judged; the property held in all of them
        eprintln!("posim: warning: runs that differ when repeated: {:?}", &b.unequal[..b.unequal.len().min(10)]);
    }
    let distinct: HashSet<u64> = b.traces.iter().copied().collect();
    b.samples.sort_by_key(|s| s["index"].as_u64());
    b.samples.truncate(3);
    let per_hour = |n: u64| (n as f64 / wall * 3600.0) as u64;
    let ev = json!({
        "property": o.prop,
        "tier": tier,
        "seed": o.master,
        "level": "exploration",
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
        "assumptions": [
            "std, regex, lalrpop-util and locale_config behave as they do here; they run as real code inside the simulation",
            "no wait-free shared state is reordered by weak memory: simulated tasks run one at a time",
        ],
        "coverage": {
            "evaluations": b.runs,
            "distinct_nontrivial": distinct.len(),
            "rule": format!("one evaluation = one simulated run of a generated plan (catalogues, stored damage, delivery schedule, faults, task schedule), judged by the oracle of {}; non-trivial = the run put the property to the test (oracle-defined, e.g. the fault was reached, a delivery was checked); distinct = different hash of the event trace (reads, switches, preemptions, calls and their results) and plan", o.prop),
            "samples": b.samples,
            "executions": b.executions,
            "nontrivial": b.nontrivial,
            "runs_per_hour": per_hour(b.runs),
            "seeds_per_hour": per_hour(b.runs),
            "simulated_seconds": b.sim_us as f64 / 1e6,
            "scheduling_points": b.steps,
            "task_switches": b.switches,
            "preemptions_inside_library": b.preempts,
            "lock_waits_simulated": b.futex,
            "atomic_operations_as_scheduling_points": b.atomics,
            "random_requests_answered": b.randoms,
            "units_delivered": b.units,
            "errors_delivered": b.errors,
            "source_reads": b.reads,
            "faults_injected": b.faults,
            "ends": b.ends,
            "probes": b.probes,
            "runs_repeated_for_determinism": b.twice,
            "repeats_that_differed": b.unequal.len(),
            "real_components": ["poreader (all of it)", "regex", "lalrpop-util", "locale_config", "std BufReader/HashMap/sync"],
            "stub_components": ["byte sources (Read)", "stored files", "thread scheduling", "futex waits and wakes", "clock and sleep", "getrandom", "allocator accounting", "atomic operations (each one a scheduling point)"],
        }
    });
    let dir = format!("{root}/evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{}.json", o.prop), serde_json::to_vec_pretty(&ev).unwrap()) {
        eprintln!("posim: evidence: {e}");
        return 2;
    }
    println!(
        "posim: {}: {} runs ({} non-trivial, {} distinct), {} executions, {:.1} s, exit {code}",
        o.prop, b.runs, b.nontrivial, distinct.len(), b.executions, t0.elapsed().as_secs_f64()
    );
    code
}
