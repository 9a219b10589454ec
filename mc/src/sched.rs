//! C18 under threads: two reads of one hive at the same time. Every access a read makes to the
//! hive's bytes is a scheduling point; two real threads are led through every interleaving of two
//! reads with a bounded number of preemptions, and each read has to give the answer it gives alone.

use crate::engine::*;
use crate::handles::{self, Env, It, Op};
use nt_hive::Hive;
use std::cell::Cell;
use std::ops::Deref;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU32, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};
use zerocopy::{ByteSlice, SplitByteSlice};

const T: Tags = &["C18"];
const NEVER: u32 = u32::MAX;
/// Schedules that could not be led through because one thread waited for the other one.
static BLOCKED: AtomicU32 = AtomicU32::new(0);

/// The shared hive's bytes: every look into them is a scheduling point.
#[derive(Clone)]
struct SBuf<'a>(&'a [u8]);
impl Deref for SBuf<'_> {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        point();
        self.0
    }
}
unsafe impl ByteSlice for SBuf<'_> {}
unsafe impl SplitByteSlice for SBuf<'_> {
    unsafe fn split_at_unchecked(self, n: usize) -> (Self, Self) {
        let (a, b) = self.0.split_at(n);
        (SBuf(a), SBuf(b))
    }
}

/// Who may run (0 or 1), and who is through.
struct Baton {
    turn: AtomicU32,
    done: [AtomicBool; 2],
    /// one thread waits for something the other one holds: both run freely from here on
    free: AtomicBool,
}

thread_local! {
    static ME: Cell<(*const Baton, usize)> = const { Cell::new((std::ptr::null(), 0)) };
    static COUNT: Cell<u32> = const { Cell::new(0) };
    /// access numbers before which this thread hands over
    static STOPS: Cell<[u32; 2]> = const { Cell::new([NEVER; 2]) };
}

fn point() {
    let n = COUNT.get();
    COUNT.set(n + 1);
    let s = STOPS.get();
    if n == s[0] || n == s[1] {
        let (b, me) = ME.get();
        if !b.is_null() {
            // SAFETY: the baton outlives the two operations
            let b = unsafe { &*b };
            if !b.done[1 - me].load(SeqCst) {
                b.turn.store(1 - me as u32, SeqCst);
                wait(b, me);
            }
        }
    }
}

fn wait(b: &Baton, me: usize) {
    let mut n = 0u32;
    let mut since: Option<Instant> = None;
    while b.turn.load(SeqCst) != me as u32 && !b.free.load(SeqCst) {
        n += 1;
        if n < 200 {
            std::hint::spin_loop();
        } else {
            std::thread::yield_now();
            if n % 1024 == 0 && since.get_or_insert_with(Instant::now).elapsed() > Duration::from_millis(500) {
                // the other one does not come to its stop: it waits for this one (a lock)
                b.free.store(true, SeqCst);
            }
        }
    }
}

/// Runs one operation as thread `me`; its result, and the number of accesses it made.
fn part(b: &Baton, me: usize, stops: [u32; 2], f: impl FnOnce() -> u64) -> (Result<u64, String>, u32) {
    wait(b, me);
    ME.set((b, me));
    STOPS.set(stops);
    COUNT.set(0);
    let r = quiet(f);
    STOPS.set([NEVER; 2]);
    ME.set((std::ptr::null(), 0));
    let n = COUNT.get();
    b.done[me].store(true, SeqCst);
    b.turn.store(1 - me as u32, SeqCst);
    (r, n)
}

struct Job<'e, 'h, 's> {
    env: &'e Env<'h, SBuf<'s>>,
    op: &'e Op,
    stops: [u32; 2],
    baton: Baton,
    out: std::sync::Mutex<Option<Result<u64, String>>>,
}

impl<'h, 's> Job<'_, 'h, 's> {
    fn second(&self, its: &mut [It<'h, SBuf<'s>>]) {
        let r = part(&self.baton, 1, self.stops, || self.env.run_on(its, self.op)).0;
        *self.out.lock().unwrap() = Some(r);
    }
}

fn images(thorough: bool) -> Vec<(&'static str, Vec<u8>)> {
    let mut v = handles::images(false);
    if !thorough {
        let mut seen = std::collections::HashSet::new();
        // intact ones, the shared and the cyclic one
        v.retain(|(n, _)| seen.insert(*n));
    }
    v
}

/// Operations that look at several records are where another read can get in between.
fn alphabet(e: &Env<SBuf>, thorough: bool) -> Vec<Op> {
    let probes: &[&str] = if thorough { &["a", "B", "m", "zz"] } else { &["a", "zz"] };
    e.ops(probes)
}

pub fn pairs(name: &'static str, thorough: bool) -> Drv {
    let ims = Arc::new(images(thorough));
    let cap = if thorough { 80 } else { 40 };
    let mut cases = vec![];
    for (i, (_, b)) in ims.iter().enumerate() {
        let n = quiet(|| Hive::without_validation(SBuf(b)).map_or(0, |h| alphabet(&Env::new(&h, b.as_ptr() as usize), thorough).len())).unwrap_or(0);
        for f in 0..n {
            cases.push((i, f));
        }
    }
    let n = cases.len() as u64;
    Drv::new(
        name,
        format!(
            "two threads with one read each, out of all reads, of one freshly opened hive ({} small ones): every interleaving at accesses to the hive's bytes with one preemption of each thread{}; a read's first {cap} accesses are scheduling points",
            ims.len(),
            if thorough { ", and with two of the first and one of the second for reads of up to 12 accesses" } else { "" }
        ),
        n,
        move |idx, c| {
            let (i, first) = cases[idx as usize];
            let (nm, b) = &ims[i];
            case(c, nm, b, first, cap, thorough)
        },
    )
}

/// Result and number of accesses of every operation when it runs alone.
fn alone(b: &[u8], thorough: bool) -> Option<(Vec<Op>, Vec<(Result<u64, String>, u32)>)> {
    let base = b.as_ptr() as usize;
    let h = quiet(|| Hive::without_validation(SBuf(b))).ok()?.ok()?;
    let ops = quiet(|| alphabet(&Env::new(&h, base), thorough)).ok()?;
    let mut w = vec![];
    for op in &ops {
        let h = Hive::without_validation(SBuf(b)).ok()?;
        let e = quiet(|| Env::new(&h, base)).ok()?;
        let mut its = e.its.clone();
        let baton = Baton { turn: AtomicU32::new(0), done: [AtomicBool::new(false), AtomicBool::new(true)], free: AtomicBool::new(false) };
        w.push(part(&baton, 0, [NEVER; 2], || e.run_on(&mut its, op)));
    }
    Some((ops, w))
}

fn case(c: &mut Ctx, nm: &str, b: &[u8], first: usize, cap: u32, thorough: bool) {
    let base = b.as_ptr() as usize;
    let Some((ops, want)) = alone(b, thorough) else { return };
    let Some(opa) = ops.get(first) else { return };
    c.sample(|| format!("{nm}: {opa:?} ({} accesses) interleaved with each of {} reads", want[first].1, ops.len()));
    let job: AtomicPtr<Job<'static, 'static, 'static>> = AtomicPtr::new(std::ptr::null_mut());
    let idle = AtomicBool::new(true);
    let stop = AtomicBool::new(false);
    std::thread::scope(|s| {
        let partner = std::thread::Builder::new().stack_size(4 << 20).spawn_scoped(s, || {
            let mut spins = 0u32;
            loop {
                let p = job.swap(std::ptr::null_mut(), SeqCst);
                if !p.is_null() {
                    spins = 0;
                    // SAFETY: the job lives until `idle` is set again
                    let j = unsafe { &*p };
                    let mut its = j.env.its.clone();
                    j.second(&mut its);
                    drop(its);
                    idle.store(true, SeqCst);
                } else if stop.load(SeqCst) {
                    break;
                } else {
                    spins += 1;
                    if spins < 200 {
                        std::hint::spin_loop();
                    } else {
                        std::thread::yield_now();
                    }
                }
            }
        });
        if partner.is_err() {
            return;
        }
        let mut runs = 0u64;
        let mut steps = 0u64;
        let mut blocked = 0;
        'all: for (o2, opb) in ops.iter().enumerate() {
            let (na, nb) = (want[first].1.min(cap), want[o2].1.min(cap));
            let mut plans: Vec<([u32; 2], [u32; 2])> = vec![];
            for i in 0..na {
                for j in (0..nb).chain([NEVER]) {
                    if j == 0 {
                        continue; // handing over at once is the schedule without a preemption
                    }
                    plans.push(([i, NEVER], [j, NEVER]));
                    if thorough && na <= 12 && nb <= 12 && j != NEVER {
                        plans.extend((i + 1..na).map(|k| ([i, k], [j, NEVER])));
                    }
                }
            }
            for (sa, sb) in plans {
                let r = quiet(|| {
                    let h = Hive::without_validation(SBuf(b)).ok()?;
                    let env = Env::new(&h, base);
                    let mut its = env.its.clone();
                    let j = Job {
                        env: &env,
                        op: opb,
                        stops: sb,
                        baton: Baton { turn: AtomicU32::new(0), done: [AtomicBool::new(false), AtomicBool::new(false)], free: AtomicBool::new(false) },
                        out: std::sync::Mutex::new(None),
                    };
                    idle.store(false, SeqCst);
                    job.store(&j as *const Job as *mut Job<'static, 'static, 'static>, SeqCst);
                    let a = part(&j.baton, 0, sa, || env.run_on(&mut its, opa)).0;
                    let mut n = 0u32;
                    while !idle.load(SeqCst) {
                        n += 1;
                        if n < 200 {
                            std::hint::spin_loop();
                        } else {
                            std::thread::yield_now();
                        }
                    }
                    let second = j.out.lock().unwrap().take();
                    Some((a, second, j.baton.free.load(SeqCst)))
                });
                runs += 1;
                steps += (want[first].1 + want[o2].1) as u64;
                let Ok(Some((a, Some(second), free))) = r else { continue };
                let how = || format!("{nm}: {opa:?} handing over before its accesses {sa:?}, {opb:?} before its accesses {sb:?} ({NEVER} = none)");
                if a != want[first].0 {
                    c.report(T, format!("a read gives another answer than alone while another thread reads: {}: the first one gives {a:?}, alone {:?}", how(), want[first].0), Some(b));
                    break 'all;
                }
                if second != want[o2].0 {
                    c.report(T, format!("a read gives another answer than alone while another thread reads: {}: the second one gives {second:?}, alone {:?}", how(), want[o2].0), Some(b));
                    break 'all;
                }
                if free {
                    blocked += 1;
                    BLOCKED.fetch_add(1, SeqCst);
                }
                if blocked > 3 || BLOCKED.load(SeqCst) > 60 {
                    break 'all;
                }
            }
        }
        c.states += runs;
        c.transitions += steps;
        stop.store(true, SeqCst);
    });
}
