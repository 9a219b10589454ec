//! C19: the same results for every buffer kind, placement, build and target. (And, for C01, that
//! the 32-bit build never crashes.)

use crate::digest as dg;
use crate::engine::*;
use crate::faults;
use crate::img::*;
use crate::lists;
use crate::model::*;
use crate::proto;
use crate::real;
use nt_hive::Hive;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::Arc;

const T: Tags = &["C19"];

/// A hive and one patch of it.
#[derive(Clone)]
pub struct Item {
    what: String,
    img: Arc<Vec<u8>>,
    patch: (u32, u32, u32),
}

impl Item {
    pub fn new(what: &str, b: Vec<u8>) -> Item {
        intact(what, b)
    }
    pub fn patched(what: String, img: Arc<Vec<u8>>, pos: usize, width: usize, v: u32) -> Item {
        Item { what, img, patch: (pos as u32, width as u32, v) }
    }
    pub fn what(&self) -> String {
        self.what.clone()
    }
    pub fn len(&self) -> usize {
        self.img.len()
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = self.img.to_vec();
        let (p, w, v) = self.patch;
        b[p as usize..(p + w) as usize].copy_from_slice(&v.to_le_bytes()[..w as usize]);
        b
    }
}

fn intact(what: &str, b: Vec<u8>) -> Item {
    Item { what: what.into(), img: Arc::new(b), patch: (0, 0, 0) }
}

/// Header fields set to odd values with the checksum corrected, and header bytes changed without.
pub fn headers() -> Vec<Item> {
    let mut v = vec![];
    let base = faults::seeds()[0].1.bytes.clone();
    let a = Arc::new(base.clone());
    for pos in 0..512u32 {
        for x in [0u8, 1, 0x80, 0xff] {
            if base[pos as usize] != x {
                v.push(Item { what: format!("header byte {pos:#x} = {x:#x}"), img: a.clone(), patch: (pos, 1, x as u32) });
            }
        }
    }
    for w in 0..127usize {
        for x in [0u32, 1, 2, 4, 0x1000, 0x0100_0000, 0x8000_0000, 0xFFFF_FFFF, 0xFFFF_F000] {
            let mut b = base.clone();
            b[4 * w..4 * w + 4].copy_from_slice(&x.to_le_bytes());
            fix_checksum(&mut b);
            v.push(intact(&format!("header word {:#x} = {x:#x}, checksum right", 4 * w), b));
        }
    }
    for n in [0usize, 1, 511, 512, 4095, 4096, 4097, 4128] {
        let mut b = base.clone();
        b.resize(n, 0);
        v.push(intact(&format!("{n} bytes"), b));
    }
    v
}

pub fn field_items(sd: &[(&'static str, Img)]) -> Vec<Item> {
    let mut v = vec![];
    for (nm, img) in sd {
        let a = Arc::new(img.bytes.clone());
        v.push(Item { what: nm.to_string(), img: a.clone(), patch: (0, 0, 0) });
        for f in &img.fields {
            for x in faults::interesting(img, f, false) {
                v.push(Item {
                    what: format!("{nm}: {} at {:#x} = {x:#x}", f.name, f.pos),
                    img: a.clone(),
                    patch: (f.pos as u32, f.width as u32, x),
                });
            }
        }
    }
    v
}

pub fn byte_items(sd: &[(&'static str, Img)], vals: &[u8]) -> Vec<Item> {
    let mut v = vec![];
    for (nm, img) in sd {
        let a = Arc::new(img.bytes.clone());
        for p in faults::positions(img) {
            for x in vals {
                v.push(Item { what: format!("{nm}: byte {p:#x} = {x:#x}"), img: a.clone(), patch: (p as u32, 1, *x as u32) });
            }
        }
    }
    v
}

/// Intact hives of many forms.
pub fn intact_items(thorough: bool) -> Vec<Item> {
    let mut v = vec![];
    let n = if thorough { 5 } else { 4 };
    for k in 0..=n {
        for st in lists::structures(k, n) {
            let mut root = Key::l("R").vol(77);
            let ents = (0..k).map(|i| Ent::K(Key::l(&format!("k{}", (b'a' + i as u8) as char)).vol(i as u32 + 1))).collect();
            root.subs = lists::store(&st, ents);
            v.push(intact(&format!("{k} keys as {}", lists::stname(&st)), build_tight(&root, 5).bytes));
        }
    }
    // every type with every small size, inline, in a cell and in segments
    for minor in [3, 5] {
        for ty in (0..14u32).chain([0x0100_0000, 0xFFFF_FFFF]) {
            let mut vals = vec![];
            for n in 0..=9usize {
                let d: Vec<u8> = (0..n).map(|i| [0x41, 0, 0, 0xd8, 0x42, 0, 0xff, 0x80, 1][i]).collect();
                if n <= 4 {
                    vals.push(Val::new(Nm::l(&format!("i{n}")), ty, Dat::Inline(d.clone())));
                }
                vals.push(Val::new(Nm::l(&format!("c{n}")), ty, Dat::Cell(d, 0)));
            }
            for part in vals.chunks(8) {
                v.push(intact(&format!("type {ty:#x}, minor {minor}"), build_tight(&Key::l("T").vals(part.to_vec()), minor).bytes));
            }
        }
    }
    for ty in [1u32, 3, 7] {
        for n in [16343usize, 16344, 16345, 32687, 32688, 32689, 50001] {
            for minor in [3, 5] {
                let d: Vec<u8> = pattern(n, 9).iter().enumerate().map(|(i, x)| if i % 2 == 1 { 0 } else { *x | 1 }).collect();
                let dat = if n <= SEG || minor == 3 { Dat::Cell(d, 0) } else { Dat::Big { data: d, surplus: 0, slack: 4 } };
                v.push(intact(&format!("{n} bytes of type {ty}, minor {minor}"), build_tight(&Key::l("T").vals(vec![Val::new(Nm::l("v"), ty, dat)]), minor).bytes));
            }
        }
    }
    for (n, lt, ch) in [(300usize, Some(Lt::Lf), 0), (300, Some(Lt::Li), 0), (300, Some(Lt::Lh), 0), (300, None, 7), (300, None, 100), (4000, None, 511), (65535, Some(Lt::Lf), 0)] {
        v.push(intact(&format!("{n} keys {lt:?} {ch}"), lists::big_list(n, lt, ch).bytes));
    }
    v.push(intact("testhive", real::hive().bytes));
    // every code unit as a name, 64 keys each
    let units = |lo: u32| {
        let ks: Vec<Ent> = (lo..lo + 12).map(|u| Ent::K(Key::new(Nm::U(vec![u as u16])))).collect();
        let mut k = Key::l("U").class("\u{e4}");
        k.subs = Subs::Leaf(Lt::Lf, ks);
        build_tight(&k, 5).bytes
    };
    for lo in (0..0x600).step_by(12).chain([0x1e00, 0x1f00, 0x2170, 0x24d0, 0x2c00, 0x2d00, 0xa640, 0xa7b0, 0xab70, 0xd7fa, 0xdbfa, 0xdffa, 0xff20, 0xfff0]) {
        v.push(intact(&format!("names {lo:#x}.."), units(lo)));
    }
    v
}

fn tame(b: &[u8]) -> bool {
    if b.len() < BASE || b.len() > 60_000 {
        return false;
    }
    let (_, _, paths, cyc) = Model::new(b).reachable(40);
    !cyc && paths < 40
}

/// What this process says about a hive; None if it panics.
pub fn here(b: &[u8], flags: u32) -> Option<[u64; 4]> {
    let mut p = faults::Placed::new(b, 0);
    quiet(|| proto::all(p.get_mut(), flags, None)).ok()
}

fn here_log(b: &[u8], flags: u32) -> Vec<String> {
    let mut out = vec![];
    let mut p = faults::Placed::new(b, 0);
    let _ = quiet(|| {
        let mut f = |s: &str, h: u64| out.push(format!("{s} {h:016x}"));
        proto::all(p.get_mut(), flags, Some(&mut f))
    });
    out
}

/// One build and target of the probe.
#[derive(Clone)]
pub struct Variant {
    pub name: &'static str,
    alloc: bool,
    be: bool,
}

pub const P64: [Variant; 6] = [
    Variant { name: "probe-std-release", alloc: true, be: false },
    Variant { name: "probe-std-checked", alloc: true, be: false },
    Variant { name: "probe-alloc-release", alloc: true, be: false },
    Variant { name: "probe-alloc-checked", alloc: true, be: false },
    Variant { name: "probe-min-release", alloc: false, be: false },
    Variant { name: "probe-min-checked", alloc: false, be: false },
];
pub const P32: [Variant; 4] = [
    Variant { name: "probe32-alloc-release", alloc: true, be: false },
    Variant { name: "probe32-alloc-checked", alloc: true, be: false },
    Variant { name: "probe32-min-release", alloc: false, be: false },
    Variant { name: "probe32-min-checked", alloc: false, be: false },
];
pub const BE: [Variant; 1] = [Variant { name: "be", alloc: true, be: true }];

impl Variant {
    pub fn built(&self) -> bool {
        verif_dir().join("target/bin").join(self.name).exists()
    }
    fn command(&self, log: bool, secs: u32) -> Command {
        let mut c = Command::new("timeout");
        c.arg("-k").arg("1").arg(secs.to_string());
        if self.be {
            c.arg(verif_dir().join("check")).arg("be-run");
        } else {
            c.arg(verif_dir().join("target/bin").join(self.name));
        }
        if log {
            c.arg("log");
        }
        c
    }
    /// Feeds the items; returns the standard output and whether the process ended well.
    fn feed(&self, items: &[(&Item, u32)], shift: usize, log: bool, secs: u32) -> (Vec<u8>, bool, String) {
        let mut input = vec![];
        let mut cur: Option<*const Vec<u8>> = None;
        let w = |i: &mut Vec<u8>, x: u32| i.extend_from_slice(&x.to_le_bytes());
        for (it, fl) in items {
            let p = Arc::as_ptr(&it.img);
            if cur != Some(p) {
                cur = Some(p);
                input.push(b'I');
                w(&mut input, it.img.len() as u32);
                w(&mut input, shift as u32);
                input.extend_from_slice(&it.img);
            }
            input.push(b'P');
            for x in [it.patch.0, it.patch.1, it.patch.2, *fl] {
                w(&mut input, x);
            }
        }
        input.extend_from_slice(b"FQ");
        let Ok(mut ch) = self
            .command(log, secs)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
        else {
            return (vec![], false, "could not start".into());
        };
        let mut si = ch.stdin.take().unwrap();
        let mut se = ch.stderr.take().unwrap();
        let wt = std::thread::spawn(move || {
            let _ = si.write_all(&input);
        });
        let et = std::thread::spawn(move || {
            let mut e = vec![];
            let _ = se.read_to_end(&mut e);
            String::from_utf8_lossy(&e[e.len().saturating_sub(600)..]).trim().to_string()
        });
        let mut out = vec![];
        let _ = ch.stdout.take().unwrap().read_to_end(&mut out);
        let ok = ch.wait().map(|s| s.success()).unwrap_or(false);
        let _ = wt.join();
        let e = et.join().unwrap_or_default();
        (out, ok, e)
    }
    fn batch(&self, items: &[(&Item, u32)], shift: usize, secs: u32) -> Result<Vec<[u64; 4]>, String> {
        let (out, ok, e) = self.feed(items, shift, false, secs);
        if !ok || out.len() != 32 * items.len() {
            return Err(e);
        }
        Ok(out
            .chunks_exact(32)
            .map(|c| {
                let g = |i: usize| u64::from_le_bytes(c[8 * i..8 * i + 8].try_into().unwrap());
                [g(0), g(1), g(2), g(3)]
            })
            .collect())
    }
}

/// Compares one batch of items between this process and a variant.
fn run_batch(c: &mut Ctx, v: &Variant, items: &[&Item], shift: usize, lite: u32, crash_only: bool) {
    let secs = if v.be { 80 } else { 60 };
    let mut todo: Vec<(&Item, u32)> = vec![];
    let mut want: Vec<[u64; 4]> = vec![];
    let mut bad: Vec<(&Item, u32)> = vec![];
    for it in items {
        let b = it.bytes();
        let fl = lite | tame(&b) as u32;
        match here(&b, fl) {
            Some(w) => {
                c.transitions += w[3];
                c.outcome(w[0]);
                todo.push((it, fl));
                want.push(w);
            }
            None => bad.push((it, fl)),
        }
    }
    c.states += todo.len() as u64;
    // the host build panics (C01): does the variant as well?
    for (it, fl) in bad.iter().take(3) {
        if !crash_only && v.batch(&[(*it, *fl)], shift, 20).is_ok() {
            c.report(T, format!("{}: checked host build panics, {} does not", it.what, v.name), Some(&it.bytes()));
        }
    }
    if todo.is_empty() {
        return;
    }
    match v.batch(&todo, shift, secs) {
        Ok(got) => {
            for (i, g) in got.iter().enumerate() {
                let w = &want[i];
                if crash_only || (g[0] == w[0] && (!v.alloc || g[1] == w[1]) && g[2] == w[2]) {
                    continue;
                }
                let (it, fl) = todo[i];
                let b = it.bytes();
                let (out, _, _) = v.feed(&[(it, fl)], shift, true, secs);
                let theirs: Vec<String> = String::from_utf8_lossy(&out).lines().map(|s| s.to_string()).collect();
                let alloc_only = ["value.into_vec", "value.string", "value.multi", "value.names", "key.names", "key.find"];
                let ours: Vec<String> = here_log(&b, fl).into_iter().filter(|l| v.alloc || !alloc_only.iter().any(|a| l.starts_with(a))).collect();
                let d = ours.iter().zip(&theirs).position(|(a, b)| a != b);
                let what = match d {
                    Some(i) => format!("operation {i} ({})", ours[i].split(' ').next().unwrap_or("")),
                    None => "the sequence of operations".into(),
                };
                c.report(T, format!("{}: {} gives a different result for {what}", it.what, v.name), Some(&b));
                if c.case_viols > 2 {
                    return;
                }
            }
        }
        Err(_) => {
            // find the items it cannot bear
            let mut found = 0;
            for (it, fl) in &todo {
                if let Err(e) = v.batch(&[(it, *fl)], shift, if v.be { 60 } else { 15 }) {
                    found += 1;
                    let last = e.lines().next().unwrap_or("").to_string();
                    c.report(
                        if crash_only { &["C01"] } else { T },
                        format!("{}: {} crashes or does not end: {last}", it.what, v.name),
                        Some(&it.bytes()),
                    );
                    if found >= 2 {
                        break;
                    }
                }
            }
            if found == 0 {
                // only in this sequence: not reproducible singly; try once more as a whole
                if let Err(e) = v.batch(&todo, shift, secs) {
                    c.report(if crash_only { &["C01"] } else { T }, format!("{} crashes or does not end within a batch: {e}", v.name), None);
                }
            }
        }
    }
}

fn batches(items: &[Item], max: usize, bytes: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut lo = 0;
    let mut sum = 0;
    for i in 0..items.len() {
        let w = items[i].img.len();
        if i > lo && (i - lo >= max || sum + w > bytes) {
            v.push((lo, i));
            lo = i;
            sum = 0;
        }
        sum += w;
    }
    if lo < items.len() {
        v.push((lo, items.len()));
    }
    v
}

/// All items in all given variants.
pub fn variants(name: &'static str, what: &str, vs: Vec<Variant>, items: Vec<Item>, shifts: Vec<usize>, crash_only: bool) -> Drv {
    let be = vs.iter().any(|v| v.be);
    let bs = if be { batches(&items, 4, 400_000) } else { batches(&items, 600, 6_000_000) };
    // alignments take turns; special places are all gone through
    let each = if shifts.iter().any(|s| s >> 31 == 1) { shifts.len() } else { 1 };
    let n = (bs.len() * vs.len() * each) as u64;
    let names: Vec<&str> = vs.iter().map(|v| v.name).collect();
    Drv::new(
        name,
        format!("{} hives ({what}) in {} builds ({}), compared with the checked host build", items.len(), vs.len(), names.join(", ")),
        n,
        move |idx, c| {
            let v = &vs[idx as usize % vs.len()];
            let b = idx as usize / vs.len();
            let (lo, hi) = bs[b / each];
            if !v.built() {
                if !crash_only && b == 0 {
                    c.report(T, format!("{} does not build", v.name), None);
                }
                return;
            }
            c.sample(|| format!("{} in {}", items[lo].what, v.name));
            let part: Vec<&Item> = items[lo..hi].iter().collect();
            run_batch(c, v, &part, shifts[b % shifts.len()], if be { 2 } else { 0 }, crash_only);
        },
    )
}

/// One fault per field name, for the slow interpreter of the big-endian target.
pub fn be_items(thorough: bool) -> Vec<Item> {
    let mut v = vec![];
    let mut sd = faults::seeds();
    sd.push(("nested", crate::refs::sd().pop().unwrap().1));
    sd.push(("small-big", crate::refs::small_big()));
    let mut seen = std::collections::HashSet::new();
    for (nm, img) in &sd {
        let a = Arc::new(img.bytes.clone());
        v.push(Item { what: nm.to_string(), img: a.clone(), patch: (0, 0, 0) });
        for f in &img.fields {
            let vals = faults::interesting(img, f, true);
            if vals.is_empty() {
                continue;
            }
            let pick: Vec<u32> = if thorough { vals } else { vec![vals[vals.len() / 2]] };
            if !thorough && !seen.insert((f.name, f.width)) {
                continue;
            }
            for x in pick {
                v.push(Item { what: format!("{nm}: {} at {:#x} = {x:#x}", f.name, f.pos), img: a.clone(), patch: (f.pos as u32, f.width as u32, x) });
            }
        }
    }
    let h = headers();
    let step = if thorough { 40 } else { 223 };
    v.extend(h.into_iter().step_by(step));
    let it = intact_items(false);
    v.extend(it.into_iter().filter(|i| i.img.len() < 9000).step_by(if thorough { 4 } else { 40 }));
    v
}

fn kinds_case(c: &mut Ctx, it: &Item, shifts: &[usize], all_shifts: bool) {
    let b = it.bytes();
    let Some(w) = here(&b, 0) else { return };
    c.states += 1;
    let max = 24;
    let mut run = |c: &mut Ctx, kind: &str, shift: usize, f: &dyn Fn(&mut faults::Placed) -> (u64, u64, u64)| {
        let mut p = faults::Placed::new(&b, shift);
        match quiet(|| f(&mut p)) {
            Ok((core, al, ops)) => {
                c.transitions += ops;
                if (core, al) != (w[0], w[1]) {
                    c.report(T, format!("{}: reading through {kind} at alignment {shift} differs from a slice at alignment 0", it.what), Some(&b));
                }
                if p.get() != &b[..] {
                    c.report(&["C16", "C18", "C19"], format!("{}: reading through {kind} changed the bytes", it.what), Some(&b));
                }
            }
            Err(e) => c.report(T, format!("{}: reading through {kind} at alignment {shift} panics: {e}", it.what), Some(&b)),
        }
    };
    let fin = |d: &dg::D| (d.core.0, d.alloc.0, d.ops);
    for s in if all_shifts { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15][..] } else { shifts } {
        run(c, "a shared slice", *s, &|p| {
            let b = p.get();
            let mut d = dg::D::new(b.as_ptr());
            dg::open_digest(&mut d, b, max);
            dg::new_digest(&mut d, b);
            fin(&d)
        });
    }
    for s in if all_shifts { &[0, 1, 2, 4, 7, 8, 13][..] } else { &shifts[..1] } {
        run(c, "a mutable slice", *s, &|p| {
            let mut d = dg::D::new(p.get().as_ptr());
            dg::open_digest(&mut d, p.get_mut(), max);
            dg::new_digest(&mut d, p.get_mut());
            fin(&d)
        });
        run(c, "a shared runtime borrow", *s, &|p| {
            let mut d = dg::D::new(p.get().as_ptr());
            let cell: RefCell<&mut [u8]> = RefCell::new(p.get_mut());
            dg::open_digest(&mut d, std::cell::Ref::map(cell.borrow(), |x| &**x), max);
            dg::new_digest(&mut d, std::cell::Ref::map(cell.borrow(), |x| &**x));
            fin(&d)
        });
        run(c, "a mutable runtime borrow", *s, &|p| {
            let mut d = dg::D::new(p.get().as_ptr());
            let cell: RefCell<&mut [u8]> = RefCell::new(p.get_mut());
            dg::open_digest(&mut d, std::cell::RefMut::map(cell.borrow_mut(), |x| &mut **x), max);
            dg::new_digest(&mut d, std::cell::RefMut::map(cell.borrow_mut(), |x| &mut **x));
            fin(&d)
        });
    }
    // clearing through both kinds of mutable buffer, at several placements
    if tame(&b) {
        let clear = |kind: u32, s: usize| {
            let mut p = faults::Placed::new(&b, s);
            let r = quiet(|| match kind {
                0 => Hive::without_validation(p.get_mut()).map(|mut h| h.clear_volatile_subkeys()),
                _ => {
                    let cell: RefCell<&mut [u8]> = RefCell::new(p.get_mut());
                    let m = std::cell::RefMut::map(cell.borrow_mut(), |x| &mut **x);
                    let r = Hive::without_validation(m).map(|mut h| h.clear_volatile_subkeys());
                    r
                }
            });
            (format!("{r:?}"), p.get().to_vec())
        };
        let want = clear(0, 0);
        for (k, s) in [(0, 1), (0, 4), (0, 7), (1, 0), (1, 3)] {
            c.transitions += 1;
            if clear(k, s) != want {
                c.report(T, format!("{}: clearing through a mutable {} at alignment {s} differs from a slice at alignment 0", it.what, ["slice", "runtime borrow"][k as usize]), Some(&b));
            }
        }
    }
}

/// All buffer kinds and placements within this process.
pub fn kinds(name: &'static str, what: &str, items: Vec<Item>, all_shifts: bool) -> Drv {
    let n = items.len() as u64;
    Drv::new(
        name,
        format!(
            "{n} hives ({what}) through &[u8] at alignments {}, &mut [u8], cell::Ref and cell::RefMut at alignments {}; clearing through &mut [u8] and cell::RefMut at 5 placements",
            if all_shifts { "1..=15" } else { "1, 4, 14" },
            if all_shifts { "0,1,2,4,7,8,13" } else { "1" }
        ),
        n,
        move |idx, c| {
            let it = &items[idx as usize];
            c.sample(|| it.what.clone());
            kinds_case(c, it, &[1, 4, 14], all_shifts);
        },
    )
    .chunk(8)
}
