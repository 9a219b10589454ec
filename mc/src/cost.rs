//! C21 and C24: what an operation may cost. Every operation of a walk over a hive is metered: the
//! memory it takes (by the counting allocator of this program), the stack it needs (it runs on a
//! small one) and how often it reaches into the hive's bytes (the buffer counts that).

use crate::cross::{self, Item};
use crate::engine::*;
use crate::faults::*;
use crate::img::*;
use crate::model::Model;
use crate::{lists, refs, tool};
use nt_hive::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::Write as _;
use std::ops::{Deref, DerefMut};
use zerocopy::{ByteSlice, SplitByteSlice};

const T_MEM: Tags = &["C21"];
const T_WORK: Tags = &["C24"];

// ---------------------------------------------------------------------------------------------
// meters

thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOUCH: Cell<u64> = const { Cell::new(0) };
}

pub struct Counting;

fn took(n: i64) {
    let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + n);
        let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        took(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        took(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|x| x.set(x.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // while it moves, both blocks exist
        took(n as i64);
        let _ = LIVE.try_with(|x| x.set(x.get() - l.size() as i64));
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static A: Counting = Counting;

/// A buffer that counts how often it is looked into.
#[derive(Clone)]
pub struct Buf<'a>(&'a [u8]);
impl Deref for Buf<'_> {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        TOUCH.with(|t| t.set(t.get() + 1));
        self.0
    }
}
unsafe impl ByteSlice for Buf<'_> {}
unsafe impl SplitByteSlice for Buf<'_> {
    unsafe fn split_at_unchecked(self, n: usize) -> (Self, Self) {
        let (a, b) = self.0.split_at(n);
        (Buf(a), Buf(b))
    }
}
pub struct BufMut<'a>(&'a mut [u8]);
impl Deref for BufMut<'_> {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        TOUCH.with(|t| t.set(t.get() + 1));
        self.0
    }
}
impl DerefMut for BufMut<'_> {
    fn deref_mut(&mut self) -> &mut [u8] {
        TOUCH.with(|t| t.set(t.get() + 1));
        self.0
    }
}
unsafe impl ByteSlice for BufMut<'_> {}
unsafe impl SplitByteSlice for BufMut<'_> {
    unsafe fn split_at_unchecked(self, n: usize) -> (Self, Self) {
        let (a, b) = self.0.split_at_mut(n);
        (BufMut(a), BufMut(b))
    }
}

struct Null;
impl std::fmt::Write for Null {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}

/// Memory allowed per operation.
#[derive(Clone, Copy)]
enum M {
    /// none at all
    No,
    /// in proportion to that many bytes that are there
    Of(usize),
}

/// Accesses to the bytes per unit of work (a record or list entry that has to be looked at).
/// Opening, the costliest unit, takes about 40.
const UNIT: u64 = 150;
/// A lookup in a list of any size: two binary searches of at most 16 steps.
const SEARCH: u64 = 40;

struct Meter {
    ops: u64,
    bad: Vec<(Tags, String)>,
    top: (u64, &'static str),
    top_mem: i64,
}

impl Meter {
    fn op<X>(&mut self, what: &'static str, mem: M, units: u64, f: impl FnOnce() -> X) -> X {
        self.ops += 1;
        let (a, l, t) = (ALLOCS.get(), LIVE.get(), TOUCH.get());
        PEAK.set(l);
        let x = f();
        let (a, p, t) = (ALLOCS.get() - a, PEAK.get() - l, TOUCH.get() - t);
        if t / units.max(1) > self.top.0 {
            self.top = (t / units.max(1), what);
        }
        if self.bad.len() < 4 {
            match mem {
                M::No if a > 0 => self.bad.push((T_MEM, format!("{what} took memory ({p} bytes)"))),
                M::Of(n) if p as u64 > 4096 + 16 * n as u64 => self.bad.push((T_MEM, format!("{what} took {p} bytes of memory for {n} bytes of data"))),
                _ => (),
            }
            if t > UNIT * units {
                self.bad.push((T_WORK, format!("{what} looked into the bytes {t} times; {units} records or entries had to be looked at")));
            }
        }
        self.top_mem = self.top_mem.max(p);
        x
    }
}

// ---------------------------------------------------------------------------------------------
// the walk

fn names(m: &mut Meter, n: &NtHiveNameString) {
    let len = n.len();
    m.op("Display of a name", M::No, 1, || {
        let _ = write!(Null, "{n}");
        let _ = write!(Null, "{n:>300}|{n:.3}|{n:?}");
    });
    m.op("comparing a name", M::No, 1, || {
        let mut x = n.is_empty() as u32;
        for s in ["", "a", "zz\u{e4}\u{10400}"] {
            x += (*n == *s) as u32 + (s == *n) as u32 + (n.partial_cmp(s).is_some()) as u32 + (*n == *n) as u32 + (n.cmp(n).is_eq()) as u32;
        }
        x
    });
    m.op("to_string_checked", M::Of(len), 1, || n.to_string_checked().is_some());
    m.op("to_string_lossy", M::Of(len), 1, || n.to_string_lossy().len());
}

const NTHS: [usize; 6] = [0, 1, 7, 60000, usize::MAX / 2, usize::MAX];

fn value<B: SplitByteSlice + Clone>(m: &mut Meter, v: &KeyValue<'_, B>) {
    if let Ok(n) = m.op("KeyValue::name", M::No, 1, || v.name()) {
        names(m, &n);
    }
    m.op("data_type, data_size", M::No, 1, || v.data_type().is_ok() as u32 + v.data_size());
    m.op("dword_data", M::No, 1, || v.dword_data().is_ok());
    m.op("qword_data", M::No, 1, || v.qword_data().is_ok());
    m.op("comparing values", M::No, 1, || v == v);
    let d = m.op("data", M::No, 1, || v.data());
    let Ok(d) = d else {
        m.op("string_data", M::Of(0), 1, || v.string_data().is_ok());
        m.op("multi_string_data", M::Of(0), 1, || v.multi_string_data().is_ok());
        return;
    };
    // what is really there, up to the first damage
    let (mut there, mut segs) = (0, 1);
    match &d {
        KeyValueData::Small(b) => there = b.len(),
        KeyValueData::Big(it) => {
            for k in NTHS {
                let mut j = it.clone();
                m.op("nth segment", M::No, 1, || j.nth(k).is_some());
            }
            m.op("length of the segments", M::No, 1, || (it.len(), it.size_hint(), it.clone().count(), it.clone().last().is_some()));
            let mut j = it.clone();
            while let Some(s) = m.op("next segment", M::No, 1, || j.next()) {
                match s {
                    Ok(s) => there += s.len(),
                    Err(_) => break,
                }
                segs += 1;
            }
        }
    }
    // gigabytes of shared segments would only take time
    if there > 4 << 20 {
        return;
    }
    m.op("into_vec", M::Of(there), segs, || d.into_vec().is_ok());
    m.op("string_data", M::Of(there), segs, || v.string_data().is_ok());
    if let Ok(mut it) = m.op("multi_string_data", M::Of(there), 1, || v.multi_string_data()) {
        let mut n = 0;
        let (t, mut got) = (TOUCH.get(), 0);
        while let Some(r) = m.op("next string", M::Of(there), segs, || it.next()) {
            let Ok(s) = r else { break };
            got += s.len();
            n += 1;
            if n > there + 2 {
                m.bad.push((T_WORK, format!("{n} strings in {there} bytes")));
                return;
            }
        }
        let t = TOUCH.get() - t;
        if t > UNIT * (segs + n as u64 + 1) {
            m.bad.push((T_WORK, format!("reading {n} strings from {segs} segments looked into the bytes {t} times")));
        }
        if got > 3 * there + 16 {
            m.bad.push((T_MEM, format!("strings of {got} bytes out of {there} bytes of data")));
        }
    }
}

fn key<'h, B: SplitByteSlice + Clone>(m: &mut Meter, k: &KeyNode<'h, B>, kids: &mut Vec<KeyNode<'h, B>>) {
    if let Ok(n) = m.op("KeyNode::name", M::No, 1, || k.name()) {
        names(m, &n);
    }
    if let Some(Ok(n)) = m.op("class_name", M::No, 1, || k.class_name()) {
        names(m, &n);
    }
    m.op("comparing keys", M::No, 1, || k == k);
    for p in ["", "a", "KB", "v", "zz\u{e4}\u{10400}", "00042"] {
        m.op("subkey", M::No, SEARCH, || k.subkey(p).is_some());
    }
    for (p, n) in [("", 1), ("\\\\", 1), ("a\\b", 2), ("ka\\kb\\\\kc", 3)] {
        m.op("subpath", M::No, n * SEARCH, || k.subpath(p).is_some());
    }
    // the first 300 in full, then only whatever a caller steps over
    if let Some(Ok(it)) = m.op("subkeys", M::No, 1, || k.subkeys()) {
        let leaf = matches!(it, SubKeyNodes::Leaf(_));
        m.op("size_hint of subkeys", M::No, 1, || it.size_hint());
        let mut j = m.op("clone of subkeys", M::No, 1, || it.clone());
        let mut n = 0u64;
        while let Some(r) = m.op("next subkey", M::No, 2, || j.next()) {
            n += 1;
            if let Ok(x) = r {
                if n <= 300 || n % 1021 == 0 {
                    kids.push(x);
                }
            }
        }
        m.op("next subkey after the end", M::No, 1, || j.next().is_some());
        // an index has to be gone through: every sub-list has one entry at least or gives an error
        let all = if leaf { 1 } else { 2 * n + 1 };
        for x in NTHS {
            let mut j = it.clone();
            m.op("nth subkey", M::No, if leaf { 1 } else { (2 * n + 1).min((x as u64).saturating_add(1).saturating_mul(2)) }, || j.nth(x).is_some());
        }
        m.op("count of subkeys", M::No, all, || it.clone().count());
        m.op("last subkey", M::No, all, || it.last().is_some());
    }
    if let Some(Ok(it)) = m.op("values", M::No, 1, || k.values()) {
        m.op("length of values", M::No, 1, || (it.len(), it.size_hint(), it.clone().count(), it.clone().last().is_some()));
        for x in NTHS {
            let mut j = it.clone();
            m.op("nth value", M::No, 1, || j.nth(x).is_some());
        }
        let n = it.len() as u64;
        for p in ["", "a", "zz\u{e4}\u{10400}"] {
            m.op("value", M::No, n + 1, || k.value(p).is_some());
        }
        let mut i = 0u64;
        let mut j = it;
        while let Some(r) = m.op("next value", M::No, 1, || j.next()) {
            i += 1;
            if let Ok(v) = r {
                if i <= 300 || i % 1021 == 0 {
                    value(m, &v);
                }
            }
        }
    }
}

fn walk(m: &mut Meter, img: &[u8]) {
    let r = m.op("Hive::new", M::No, 1, || Hive::new(Buf(img)));
    let _ = m.op("printing the error", M::No, 1, || r.as_ref().err().map(|e| write!(Null, "{e}{e:?}")));
    let r = m.op("Hive::without_validation", M::No, 1, || Hive::without_validation(Buf(img)));
    let Ok(h) = r else { return };
    m.op("validate, versions", M::No, 1, || (h.validate().is_ok(), h.major_version(), h.minor_version()));
    let r = m.op("root_key_node", M::No, 1, || h.root_key_node());
    let _ = m.op("printing the error", M::No, 1, || r.as_ref().err().map(|e| write!(Null, "{e}{e:?}")));
    let Ok(root) = r else { return };
    let mut q = vec![root];
    let mut i = 0;
    let max = if img.len() > 1 << 20 { 700 } else { 64 };
    while i < q.len() && i < max {
        let mut kids = Vec::with_capacity(1024);
        let k = q[i].clone();
        key(m, &k, &mut kids);
        if q.len() < max {
            q.extend(kids);
        }
        i += 1;
    }
}

/// Clearing: no memory; at most a constant number of accesses per key it gets to and sub-list.
fn clear(m: &mut Meter, img: &[u8]) {
    let mo = Model::new(img);
    let (n, cyc) = if img.len() < 4096 + 32 { (1, false) } else { let (_, _, n, cyc) = mo.reachable(100_000); (n, cyc) };
    if cyc || n >= 100_000 {
        return;
    }
    // a list entry leads to a key, damage ends the walk; sub-lists that fit into the image
    let units = n + (img.len() / 4) as u64;
    let mut b = img.to_vec();
    let Ok(mut h) = Hive::without_validation(BufMut(&mut b)) else { return };
    m.op("clear_volatile_subkeys", M::No, units, || h.clear_volatile_subkeys().is_ok());
}

pub fn image(c: &mut Ctx, what: &str, img: &[u8], stack: usize) {
    let (r, ops) = std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(stack).spawn_scoped(s, || {
            let mut m = Meter { ops: 0, bad: vec![], top: (0, ""), top_mem: 0 };
            let r = quiet(|| {
                walk(&mut m, img);
                clear(&mut m, img);
            });
            (r, m)
        });
        match h.unwrap().join() {
            Ok((r, m)) => (r, Some(m)),
            Err(_) => (Err("thread".into()), None),
        }
    });
    c.states += 1;
    if let Some(m) = ops {
        c.transitions += m.ops;
        if std::env::var("TOPS").is_ok() { eprintln!("TOP {:?}", m.top); }
        c.outcome(m.top.0 << 40 | m.top_mem as u64);
        for (t, msg) in m.bad {
            c.report(t, format!("{what}: {msg}"), Some(img));
        }
    }
    if let Err(e) = r {
        c.report(&["C01", "C21", "C24"], format!("{what}: panic: {e}"), Some(img));
    }
}

/// The stack every walk has to do with.
const STACK: usize = 64 << 10;

pub fn items(name: &'static str, what: &str, items: Vec<Item>) -> Drv {
    let n = items.len() as u64;
    Drv::new(name, format!("{n} images ({what}), every operation metered, on a stack of 64 KiB"), n, move |i, c| {
        let it = &items[i as usize];
        c.sample(|| it.what());
        image(c, &it.what(), &it.bytes(), STACK);
    })
    .chunk(8)
}

/// Long lists of every kind, and damage at the start, in the middle and at the end of them.
pub fn long(name: &'static str, thorough: bool) -> Drv {
    let mut v: Vec<(String, Box<dyn Fn() -> Vec<u8> + Send + Sync>)> = vec![];
    let sizes: Vec<usize> = if thorough { vec![1, 2, 255, 256, 4000, 16384, 32767, 32768, 50000, 65534, 65535] } else { vec![256, 4000, 32768, 65535] };
    for &n in &sizes {
        for lt in LTS {
            v.push((format!("{n} keys in one list {lt:?}"), Box::new(move || lists::big_list(n, Some(lt), 0).bytes)));
        }
        for chunk in [1usize, 64, 1000] {
            v.push((format!("{n} keys in lists of {chunk}"), Box::new(move || lists::big_list(n, None, chunk).bytes)));
        }
        // an index of sub-lists that are all empty, damaged, indexes themselves or nowhere
        for kind in 0..4 {
            v.push((format!("an index of {n} bad sub-lists, kind {kind}"), Box::new(move || {
                let mut b = B::quiet();
                let root = b.nk(&Key::l("R"), 0);
                let k = b.key(&Key::l("K"), root);
                let x = match kind {
                    0 => b.leaf(Lt::Lh, &[], 0),
                    1 => b.free_cell(16),
                    2 => b.ri(&[], 0),
                    _ => 0x7000_0000,
                };
                let mut o = vec![x; n];
                o[n - 1] = b.leaf(Lt::Li, &[(k, [0; 4], [0; 4])], 0);
                let l = b.ri(&o, 0);
                b.set_subs(root, l, n as u32);
                b.finish_tight(root, 5).bytes
            })));
        }
        // all entries the same key
        for bad in [None, Some(0), Some(n / 2), Some(n - 1)] {
            v.push((format!("{n} entries of one value, damaged {bad:?}"), Box::new(move || {
                let mut b = B::quiet();
                let root = b.nk(&Key::l("R"), 0);
                let x = b.val(&Val::new(Nm::l("v"), 4, Dat::Inline(vec![1, 2, 3, 4])));
                let mut o = vec![x; n];
                if let Some(i) = bad {
                    o[i] = 0x7000_0000;
                }
                let l = b.vlist(&o, 0);
                b.set_vals(root, l, n as u32);
                b.finish_tight(root, 5).bytes
            })));
            // segments that are all the same cell
            for ty in [1u32, 3, 7] {
                for full in [true, false] {
                    v.push((format!("{n} segments of one cell, type {ty}, damaged {bad:?}, full size {full}"), Box::new(move || {
                        let mut b = B::quiet();
                        let root = b.nk(&Key::l("R"), 0);
                        let o = b.alloc(SEG, "seg");
                        let p: Vec<u8> = (0..SEG / 2).flat_map(|i| [0x61 + (i % 26) as u8 * (i % 61 != 0) as u8, 0]).collect();
                        b.put(o as usize + 4, &p);
                        let mut o = vec![o; n];
                        if let Some(i) = bad {
                            o[i] = 0x7000_0000;
                        }
                        let d = b.db(&o, n as u16, 0);
                        let size = if full { n * SEG } else { (n * SEG).min(20 * SEG - 5) };
                        let x = b.val(&Val::new(Nm::l("v"), ty, Dat::Raw(size as u32, d)));
                        let l = b.vlist(&[x], 0);
                        b.set_vals(root, l, 1);
                        b.finish_tight(root, 5).bytes
                    })));
                }
            }
        }
    }
    for &n in &[100usize, 1000, 5000] {
        v.push((format!("a chain of {n} keys"), Box::new(move || tool::chain(n))));
        v.push((format!("a cycle of {n} keys"), Box::new(move || tool::cycle(n))));
    }
    let n = v.len() as u64;
    Drv::new(name, format!("{n} hives with long lists of keys, values and segments (to 65535 and over), damaged at the start, in the middle, at the end or not"), n, move |i, c| {
        let (what, f) = &v[i as usize];
        c.sample(|| what.clone());
        // clearing recurses by the depth of the tree (known, see C01); everything else must not
        image(c, what, &f(), if what.starts_with('a') { 8 << 20 } else { STACK });
    })
}

/// Depth must not matter to reading.
pub fn paths(name: &'static str) -> Drv {
    Drv::new(name, "paths of 1..=100000 components through a cycle, on a stack of 64 KiB", 24, move |i, c| {
        let n = [1usize, 2, 10, 100, 1000, 10000, 30000, 100000][i as usize % 8];
        let img = tool::cycle(1 + i as usize / 8);
        c.sample(|| format!("{n} components"));
        let one = match Model::new(&img).root().and_then(|r| Model::new(&img).subkeys(r).unwrap()) {
            Ok(s) => {
                let k = *s.ents[0].as_ref().ok().unwrap();
                let m = Model::new(&img);
                crate::model::decode(&m.name_units(m.key_name(k).ok().unwrap())).0
            }
            Err(_) => return,
        };
        let p = vec![one; n].join("\\");
        let r = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, || {
                    let mut m = Meter { ops: 0, bad: vec![], top: (0, ""), top_mem: 0 };
                    let r = quiet(|| {
                        let h = Hive::without_validation(Buf(&img)).unwrap();
                        let k = h.root_key_node().unwrap();
                        m.op("subpath", M::No, n as u64 * SEARCH, || k.subpath(&p).is_some());
                    });
                    (r, m)
                })
                .unwrap()
                .join()
        });
        c.states += 1;
        c.transitions += 1;
        match r {
            Ok((Ok(()), m)) => {
                for (t, msg) in m.bad {
                    c.report(t, format!("{n} components: {msg}"), Some(&img));
                }
            }
            _ => c.report(&["C01", "C21", "C24"], format!("{n} components: panic"), Some(&img)),
        }
    })
}

pub fn drivers(q: bool) -> Vec<Drv> {
    let mut sd = refs::sd();
    sd.push(("small-big", refs::small_big()));
    let mut f = cross::field_items(&sd);
    f.extend(cross::field_items(&seeds_big()));
    let mut v = vec![
        long("long-lists", !q),
        paths("long-paths"),
        items("faults", "every single-field fault of the seeds", f),
        items("headers", "odd headers", cross::headers()),
        items("intact", "intact hives of many forms", cross::intact_items(!q)),
        items("odd", "every code unit, awkward names, extreme lengths and large counts", tool::odd_items(!q)),
        items("values", "one value of every type and size", tool::value_items(!q)),
        items("trees", "every key tree of up to 6 keys", tool::tree_items(if q { 6 } else { 8 })),
        items("spare-room", "cells larger than their contents", crate::room::items()),
    ];
    if !q {
        let all: Vec<u8> = (0..=255).collect();
        v.push(items("bytes", "every single-byte change of the seeds", cross::byte_items(&sd, &all)));
    }
    v
}
