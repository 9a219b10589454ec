//! Exhaustive-enumeration engine: every driver is a finite, indexed space of cases; all of them
//! are executed (in parallel, in a supervised worker process), never sampled.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering as AO};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub type Tags = &'static [&'static str];

pub struct Drv {
    pub name: &'static str,
    pub bound: String,
    pub n: u64,
    pub chunk: u64,
    pub run: Box<dyn Fn(u64, &mut Ctx) + Send + Sync>,
}

impl Drv {
    pub fn new(
        name: &'static str,
        bound: impl Into<String>,
        n: u64,
        run: impl Fn(u64, &mut Ctx) + Send + Sync + 'static,
    ) -> Drv {
        Drv {
            name,
            bound: bound.into(),
            n,
            chunk: 1,
            run: Box::new(run),
        }
    }
    pub fn chunk(mut self, c: u64) -> Drv {
        self.chunk = c;
        self
    }
}

#[derive(Clone)]
pub struct Viol {
    pub drv: usize,
    pub idx: u64,
    pub msg: String,
    pub img: Option<Vec<u8>>,
    pub key: Option<String>,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub exact: bool,
    pub verbose: bool,
    pub states: u64,
    pub transitions: u64,
    pub others: u64,
    pub outcomes: HashSet<u64>,
    pub viols: Vec<Viol>,
    pub case_viols: u32,
    pub drv: usize,
    pub idx: u64,
    pub samples: Vec<String>,
    pub want_sample: bool,
    pub other_msgs: Vec<String>,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier) -> Ctx {
        Ctx {
            prop: prop.into(),
            tier,
            exact: false,
            verbose: false,
            states: 0,
            transitions: 0,
            others: 0,
            outcomes: HashSet::new(),
            viols: vec![],
            case_viols: 0,
            drv: 0,
            idx: 0,
            samples: vec![],
            want_sample: false,
            other_msgs: vec![],
        }
    }
    pub fn is(&self, p: &str) -> bool {
        self.prop == p
    }
    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.len() < 100_000 {
            self.outcomes.insert(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.samples.len() < 64 {
            self.samples.push(f());
            self.want_sample = false;
        }
    }
    pub fn report(&mut self, tags: Tags, msg: String, img: Option<&[u8]>) {
        self.report_key(tags, None, msg, img)
    }
    pub fn report_key(&mut self, tags: Tags, key: Option<&str>, msg: String, img: Option<&[u8]>) {
        if tags.iter().any(|t| *t == self.prop) || self.prop == "ALL" {
            self.case_viols += 1;
            if self.verbose {
                println!("mismatch {tags:?}: {msg}");
            }
            if self.case_viols <= 3 {
                self.viols.push(Viol {
                    drv: self.drv,
                    idx: self.idx,
                    msg: format!("[{}] {msg}", tags.join(",")),
                    // gigabyte buffers are rebuilt from the case number instead
                    img: img.filter(|b| b.len() < 64 << 20).map(|b| b.to_vec()),
                    key: key.map(|k| k.to_string()),
                });
            }
        } else {
            self.others += 1;
            if self.verbose {
                println!("(other property) {tags:?}: {msg}");
            }
            if self.other_msgs.len() < 3 {
                self.other_msgs.push(format!("[{}] {msg}", tags.join(",")));
            }
        }
    }
    /// Runs one call into the library; a panic is a violation of C01 and of the call's own aspects.
    pub fn call<X>(
        &mut self,
        tags: Tags,
        what: &str,
        at: usize,
        img: &[u8],
        f: impl FnOnce() -> X,
    ) -> Option<X> {
        self.transitions += 1;
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(x) => Some(x),
            Err(_) => {
                let m = PANIC.with(|p| p.borrow().clone());
                let msg = format!("{what} (at {at:#x}) panicked: {m}");
                if self.prop == "C01" {
                    self.report(&["C01"], msg, Some(img));
                } else {
                    self.report(tags, msg, Some(img));
                }
                None
            }
        }
    }
}

/// Catches a panic in harness-visible code without reporting.
pub fn quiet<X>(f: impl FnOnce() -> X) -> Result<X, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub fn threads() -> usize {
    std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .min(16)
}

struct Slots {
    f: std::fs::File,
}
const SLOT: u64 = 32;
impl Slots {
    fn set(&self, t: usize, running: bool, drv: usize, idx: u64, seq: u64) {
        let mut b = [0u8; SLOT as usize];
        b[0..8].copy_from_slice(&(running as u64).to_le_bytes());
        b[8..16].copy_from_slice(&(drv as u64).to_le_bytes());
        b[16..24].copy_from_slice(&idx.to_le_bytes());
        b[24..32].copy_from_slice(&seq.to_le_bytes());
        let _ = self.f.write_all_at(&b, t as u64 * SLOT);
    }
}

fn read_slots(path: &PathBuf) -> Vec<(bool, usize, u64, u64)> {
    let b = std::fs::read(path).unwrap_or_default();
    b.chunks_exact(SLOT as usize)
        .map(|c| {
            let g = |i: usize| u64::from_le_bytes(c[8 * i..8 * i + 8].try_into().unwrap());
            (g(0) == 1, g(1) as usize, g(2), g(3))
        })
        .collect()
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Known {
    pub listed: Vec<(String, String, String)>,
}

pub fn known(prop: &str) -> Known {
    let mut listed = vec![];
    if let Ok(s) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
        for l in s.lines() {
            // KNOWN-FINDING: property=C01 key=<key> <what fails>
            let Some(r) = l.strip_prefix("KNOWN-FINDING: ") else {
                continue;
            };
            let mut w = r.splitn(3, ' ');
            let p = w.next().unwrap_or("").trim_start_matches("property=");
            let k = w.next().unwrap_or("").trim_start_matches("key=");
            if p == prop {
                listed.push((p.into(), k.into(), w.next().unwrap_or("").into()));
            }
        }
    }
    Known { listed }
}

/// Worker: runs everything, writes evidence, prints violations; returns the exit code.
pub fn worker(prop: &str, tier: Tier, drvs: Vec<Drv>, slots: Option<PathBuf>, cap_s: u64) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let nthreads = threads();
    let total: u64 = drvs.iter().map(|d| d.n).sum();
    let mut starts = vec![];
    let mut s = 0;
    for d in &drvs {
        starts.push(s);
        s += d.n;
    }
    let next_drv = AtomicUsize::new(0);
    let next_idx: Vec<AtomicU64> = drvs.iter().map(|_| AtomicU64::new(0)).collect();
    let done: Vec<AtomicU64> = drvs.iter().map(|_| AtomicU64::new(0)).collect();
    let nanos: Vec<AtomicU64> = drvs.iter().map(|_| AtomicU64::new(0)).collect();
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let slotf = slots.as_ref().map(|p| Slots {
        f: std::fs::OpenOptions::new()
            .create(true)
            .write(true)
            .truncate(true)
            .open(p)
            .expect("slot file"),
    });
    let out: Mutex<Vec<Ctx>> = Mutex::new(vec![]);
    let nviol = AtomicUsize::new(0);
    let kn = known(prop);
    std::thread::scope(|sc| {
        for t in 0..nthreads {
            let (drvs, next_drv, next_idx, done, stop, capped, slotf, out, nviol, nanos, kn) = (
                &drvs, &next_drv, &next_idx, &done, &stop, &capped, &slotf, &out, &nviol, &nanos, &kn,
            );
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(sc, move || {
                    let mut c = Ctx::new(prop, tier);
                    let mut seq = 0u64;
                    'outer: loop {
                        if stop.load(AO::Relaxed) {
                            break;
                        }
                        let d = next_drv.load(AO::Relaxed);
                        if d >= drvs.len() {
                            break;
                        }
                        let drv = &drvs[d];
                        let lo = next_idx[d].fetch_add(drv.chunk, AO::Relaxed);
                        if lo >= drv.n {
                            let _ =
                                next_drv.compare_exchange(d, d + 1, AO::Relaxed, AO::Relaxed);
                            continue;
                        }
                        let hi = (lo + drv.chunk).min(drv.n);
                        let ts = Instant::now();
                        c.drv = d;
                        for idx in lo..hi {
                            seq += 1;
                            if let Some(s) = slotf {
                                s.set(t, true, d, idx, seq);
                            }
                            c.idx = idx;
                            c.case_viols = 0;
                            c.exact = false;
                            c.want_sample = idx == 0 || idx == drv.n / 2 || idx + 1 == drv.n;
                            let before = c.viols.len();
                            (drv.run)(idx, &mut c);
                            done[d].fetch_add(1, AO::Relaxed);
                            if c.viols.len() > before {
                                let fresh = c.viols[before..]
                                    .iter()
                                    .filter(|v| {
                                        v.key.as_ref().map_or(true, |k| {
                                            !kn.listed.iter().any(|l| &l.1 == k)
                                        })
                                    })
                                    .count();
                                if fresh > 0
                                    && nviol.fetch_add(1, AO::Relaxed) >= 24
                                {
                                    stop.store(true, AO::Relaxed);
                                }
                            }
                            if stop.load(AO::Relaxed) {
                                break 'outer;
                            }
                            if t0.elapsed().as_secs() > cap_s {
                                capped.store(true, AO::Relaxed);
                                stop.store(true, AO::Relaxed);
                                break 'outer;
                            }
                        }
                        nanos[d].fetch_add(ts.elapsed().as_nanos() as u64, AO::Relaxed);
                    }
                    if let Some(s) = slotf {
                        s.set(t, false, 0, 0, seq + 1);
                    }
                    out.lock().unwrap().push(c);
                })
                .unwrap();
        }
    });
    let ctxs = out.into_inner().unwrap();
    let mut states = 0;
    let mut trans = 0;
    let mut others = 0;
    let mut outcomes: HashSet<u64> = HashSet::new();
    let mut viols: Vec<Viol> = vec![];
    let mut samples: Vec<String> = vec![];
    let mut other_msgs: Vec<String> = vec![];
    for c in ctxs {
        states += c.states;
        trans += c.transitions;
        others += c.others;
        outcomes.extend(c.outcomes);
        viols.extend(c.viols);
        samples.extend(c.samples);
        other_msgs.extend(c.other_msgs);
    }
    samples.sort();
    samples.truncate(24);
    viols.sort_by_key(|v| (v.drv, v.idx));
    let cases: u64 = done.iter().map(|d| d.load(AO::Relaxed)).sum();
    let full = cases == total && !capped.load(AO::Relaxed);
    let mut per = vec![];
    for (i, d) in drvs.iter().enumerate() {
        per.push(format!(
            "{{\"name\":{},\"bound\":{},\"cases\":{},\"of\":{},\"thread_s\":{:.1}}}",
            jstr(d.name),
            jstr(&d.bound),
            done[i].load(AO::Relaxed),
            d.n,
            nanos[i].load(AO::Relaxed) as f64 / 1e9
        ));
    }
    // Split known findings from fresh violations.
    let mut fresh = vec![];
    let mut seen_known: BTreeMap<String, String> = BTreeMap::new();
    for v in viols {
        match v.key.as_ref().and_then(|k| kn.listed.iter().find(|l| &l.1 == k)) {
            Some(l) => {
                seen_known.insert(l.1.clone(), l.2.clone());
            }
            None => fresh.push(v),
        }
    }
    for l in &kn.listed {
        if seen_known.contains_key(&l.1) {
            println!("KNOWN-FINDING: property={prop} {} {}", l.1, l.2);
        } else if full {
            println!("note: listed finding {} of {prop} no longer occurs", l.1);
        }
    }
    let mut code = 0;
    let nv = fresh.len();
    for (i, v) in fresh.iter().take(3).enumerate() {
        let path = write_replay(prop, tier, drvs[v.drv].name, v.idx, i, &v.msg, v.img.as_deref());
        println!("{} case {}: {}", drvs[v.drv].name, v.idx, v.msg);
        println!("VIOLATION property={prop} replay={path}");
        code = 1;
    }
    write_evidence(
        prop,
        tier,
        t0.elapsed().as_secs_f64(),
        states,
        trans,
        cases,
        full,
        &samples,
        outcomes.len(),
        &per,
        nv,
        others,
        seen_known.len(),
    );
    println!(
        "{prop} {tier:?}: {cases}/{total} cases, {states} states, {trans} transitions, {} outcomes, {nv} violations, {others} mismatches of other properties, {:.1}s",
        outcomes.len(),
        t0.elapsed().as_secs_f64()
    );
    if std::env::var_os("MC_VERBOSE").is_some() {
        for p in &per {
            println!("  {p}");
        }
        for o in other_msgs.iter().take(5) {
            println!("  other: {o}");
        }
    }
    if !full && code == 0 {
        if capped.load(AO::Relaxed) && tier == Tier::Thorough {
            println!("note: time cap reached; coverage below is partial (recorded in evidence)");
        } else {
            eprintln!("internal: exploration incomplete without a violation");
            return 2;
        }
    }
    if code == 0 && cases == 0 {
        eprintln!("internal: nothing explored");
        return 2;
    }
    code
}

pub fn write_replay(
    prop: &str,
    tier: Tier,
    drv: &str,
    idx: u64,
    n: usize,
    msg: &str,
    img: Option<&[u8]>,
) -> String {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let base = dir.join(format!("{prop}-{n}"));
    let imgp = base.with_extension("bin");
    let mut ip = String::new();
    if let Some(b) = img {
        let _ = std::fs::write(&imgp, b);
        ip = imgp.display().to_string();
    }
    let p = base.with_extension("json");
    let _ = std::fs::write(
        &p,
        format!(
            "{{\"property\":{},\"tier\":{},\"driver\":{},\"case\":{},\"what\":{},\"image\":{},\"replay_cmd\":{}}}\n",
            jstr(prop),
            jstr(if tier == Tier::Quick { "quick" } else { "thorough" }),
            jstr(drv),
            idx,
            jstr(msg),
            jstr(&ip),
            jstr(&format!("cd /verif && ./check replay {}", p.display()))
        ),
    );
    p.display().to_string()
}

#[allow(clippy::too_many_arguments)]
pub fn write_evidence(
    prop: &str,
    tier: Tier,
    wall: f64,
    states: u64,
    trans: u64,
    cases: u64,
    full: bool,
    samples: &[String],
    outcomes: usize,
    per: &[String],
    nv: usize,
    others: u64,
    knownn: usize,
) {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let seed: i64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let (note, assume) = crate::props::notes(prop);
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"distinct_outcomes\": {},\n  \"mismatches_of_other_properties\": {},\n  \"known_findings_seen\": {},\n  \"explanation\": {},\n  \"drivers\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        jstr(prop),
        jstr(if tier == Tier::Quick { "quick" } else { "thorough" }),
        seed,
        states,
        trans,
        cases,
        full,
        outcomes,
        others,
        knownn,
        jstr(&note),
        per.join(",\n   "),
        samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n   "),
        assume.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
        wall,
        nv
    );
    std::fs::write(dir.join(format!("{prop}.json")), body).expect("write evidence");
}

/// Supervisor: runs the worker in a child process and turns aborts, stack overflows and endless
/// loops into violations, after reproducing them in isolation.
pub fn supervise(prop: &str, tier: Tier, names: &[&'static str]) -> i32 {
    let dir = verif_dir().join("target/run");
    let _ = std::fs::create_dir_all(&dir);
    let slots = dir.join(format!("{prop}-{}.slots", std::process::id()));
    let ts = if tier == Tier::Quick { "quick" } else { "thorough" };
    let exe = std::env::current_exe().unwrap();
    let t0 = Instant::now();
    let mut ch = std::process::Command::new(&exe)
        .args(["worker", prop, ts])
        .arg(&slots)
        .spawn()
        .expect("spawn worker");
    let mut last: Vec<(u64, Instant)> = vec![];
    let mut hung = None;
    let status = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break s;
        }
        std::thread::sleep(Duration::from_millis(30));
        let sl = read_slots(&slots);
        last.resize(sl.len(), (u64::MAX, Instant::now()));
        for (i, s) in sl.iter().enumerate() {
            if last[i].0 != s.3 || !s.0 {
                last[i] = (s.3, Instant::now());
            } else if last[i].1.elapsed() > Duration::from_secs(stall_s(tier)) {
                hung = Some((s.1, s.2));
            }
        }
        if hung.is_some() {
            let _ = ch.kill();
            let s = ch.wait().unwrap();
            break s;
        }
    };
    let sl = read_slots(&slots);
    let _ = std::fs::remove_file(&slots);
    if hung.is_none() {
        if let Some(c) = status.code() {
            if c == 0 || c == 1 || c == 2 {
                return c;
            }
        }
    }
    let mut cands: Vec<(usize, u64)> = match hung {
        Some(h) => vec![h],
        None => sl.iter().filter(|s| s.0).map(|s| (s.1, s.2)).collect(),
    };
    cands.sort();
    println!("worker ended abnormally ({status:?}, hung={}), re-running {} candidate case(s) in isolation", hung.is_some(), cands.len());
    for (d, idx) in cands {
        let mut c = std::process::Command::new(&exe)
            .args(["one", prop, ts, names[d], &idx.to_string()])
            .stdout(std::process::Stdio::null())
            .spawn()
            .unwrap();
        let t = Instant::now();
        let r = loop {
            if let Some(s) = c.try_wait().unwrap() {
                break Some(s);
            }
            if t.elapsed() > Duration::from_secs(stall_s(tier)) {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(20));
        };
        let what = match r {
            None => "does not terminate (or takes more than the stall limit)".to_string(),
            Some(s) if matches!(s.code(), Some(0) | Some(2)) => continue,
            Some(s) if s.code() == Some(1) => "violates the property (see replay)".to_string(),
            Some(s) => format!("kills the process ({s:?}: stack exhaustion or abort)"),
        };
        let msg = format!("case {idx} of {} {what}", names[d]);
        let p = write_replay(prop, tier, names[d], idx, 0, &msg, None);
        println!("{msg}");
        println!("VIOLATION property={prop} replay={p}");
        write_evidence(prop, tier, t0.elapsed().as_secs_f64(), 0, 0, 0, false, &[msg], 0, &[], 1, 0, 0);
        return 1;
    }
    eprintln!("internal: worker died and no candidate case reproduces it");
    2
}

fn stall_s(tier: Tier) -> u64 {
    if tier == Tier::Quick {
        90
    } else {
        300
    }
}

/// Runs a single case in this process (replay / isolation).
pub fn one(prop: &str, tier: Tier, drvs: &[Drv], drv: &str, idx: u64) -> i32 {
    install_hook();
    let prop = prop.to_string();
    let d = drvs.iter().position(|d| d.name == drv).expect("driver");
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, || {
                let mut c = Ctx::new(&prop, tier);
                c.verbose = true;
                c.drv = d;
                c.idx = idx;
                c.want_sample = true;
                (drvs[d].run)(idx, &mut c);
                for s in &c.samples {
                    println!("case: {s}");
                }
                let kn = known(&prop);
                let fresh = c
                    .viols
                    .iter()
                    .filter(|v| {
                        v.key
                            .as_ref()
                            .map_or(true, |k| !kn.listed.iter().any(|l| &l.1 == k))
                    })
                    .count();
                println!(
                    "{} states, {} transitions, {} violations of {}",
                    c.states,
                    c.transitions,
                    c.viols.len(),
                    prop
                );
                if fresh > 0 {
                    1
                } else {
                    0
                }
            })
            .unwrap()
            .join()
            .unwrap_or_else(|e| {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                println!("the case panicked outside a guarded call: {m}");
                3
            })
    })
}
