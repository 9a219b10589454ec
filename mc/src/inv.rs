//! C22: bytes without a meaning to this library (hints, hashes, time stamps, counters, spare
//! bytes, free space, bin headers) have no influence.
//! C23: records may lie anywhere and in any order.

use crate::cross;
use crate::engine::*;
use crate::faults::*;
use crate::img::*;
use crate::lists;
use crate::model::Model;
use crate::proto;
use crate::real;
use crate::refs;
use nt_hive::*;
use std::fmt::Write as _;
use std::sync::Arc;

pub const T_INERT: Tags = &["C22"];
const T_PLACE: Tags = &["C23"];

// ---------------------------------------------------------------------------------------------
// C22

/// For each byte the mask of its bits that have a meaning. The hive must be undamaged.
fn meaning(b: &[u8]) -> Vec<u8> {
    let mut m = vec![0u8; b.len()];
    let w = |p: usize| u32::from_le_bytes(b[p..p + 4].try_into().unwrap());
    let h = |p: usize| u16::from_le_bytes([b[p], b[p + 1]]) as usize;
    fn all(m: &mut [u8], p: usize, n: usize) {
        m[p..p + n].fill(0xFF);
    }
    // header: signature, sequence numbers, versions, type, format, root, size, clustering, checksum
    all(&mut m, 0, 12);
    all(&mut m, 20, 28);
    all(&mut m, 508, 4);
    let cell = |m: &mut [u8], off: u32| {
        let p = off as usize + BASE;
        all(m, p, 4);
        p + 4
    };
    let mut q = vec![w(36)];
    let mut seen = std::collections::HashSet::new();
    let minor = w(24);
    while let Some(o) = q.pop() {
        if !seen.insert(o) {
            continue;
        }
        let p = cell(&mut m, o);
        all(&mut m, p, 2);
        m[p + 2] |= 0x20;
        for (at, n) in [(28, 4), (36, 4), (40, 4), (48, 4), (72, 4)] {
            all(&mut m, p + at, n);
        }
        all(&mut m, p + 76, h(p + 72));
        if w(p + 48) != NONE {
            let c = cell(&mut m, w(p + 48));
            all(&mut m, c, h(p + 74));
        }
        if w(p + 28) != NONE {
            let mut ls = vec![w(p + 28)];
            while let Some(l) = ls.pop() {
                let l = cell(&mut m, l);
                all(&mut m, l, 4);
                let step = match &b[l..l + 2] {
                    b"lf" | b"lh" => 8,
                    _ => 4,
                };
                for i in 0..h(l + 2) {
                    all(&mut m, l + 4 + i * step, 4);
                    if &b[l..l + 2] == b"ri" {
                        ls.push(w(l + 4 + i * step));
                    } else {
                        q.push(w(l + 4 + i * step));
                    }
                }
            }
        }
        if w(p + 40) != NONE {
            let l = cell(&mut m, w(p + 40));
            for i in 0..w(p + 36) as usize {
                all(&mut m, l + 4 * i, 4);
                let v = cell(&mut m, w(l + 4 * i));
                all(&mut m, v, 8);
                all(&mut m, v + 12, 4);
                m[v + 16] |= 1;
                all(&mut m, v + 20, h(v + 2));
                let n = w(v + 4);
                if n >> 31 == 1 {
                    all(&mut m, v + 8, (n & 0x7FFF_FFFF) as usize);
                    continue;
                }
                all(&mut m, v + 8, 4);
                let d = cell(&mut m, w(v + 8));
                if n as usize <= SEG || minor < 4 {
                    all(&mut m, d, n as usize);
                    continue;
                }
                all(&mut m, d, 8);
                let sl = cell(&mut m, w(d + 4));
                let mut left = n as usize;
                let mut i = 0;
                while left > 0 {
                    all(&mut m, sl + 4 * i, 4);
                    let s = cell(&mut m, w(sl + 4 * i));
                    all(&mut m, s, left.min(SEG));
                    left -= left.min(SEG);
                    i += 1;
                }
            }
        }
    }
    m
}

struct Base {
    what: String,
    b: Vec<u8>,
    m: Vec<u8>,
    want: [u64; 2],
}

fn digest(b: &mut [u8]) -> [u64; 2] {
    let r = proto::all(b, 0, None);
    [r[0], r[1]]
}

impl Base {
    fn new(what: String, b: Vec<u8>) -> Base {
        let m = meaning(&b);
        Base { what, want: [0, 0], b, m }
    }
    fn ready(mut self) -> Base {
        let mut x = self.b.clone();
        self.want = digest(&mut x);
        self
    }
    fn compare(&self, c: &mut Ctx, x: &mut [u8], what: impl FnOnce() -> String) {
        c.states += 1;
        match quiet(|| {
            let d = digest(x);
            // clearing must reach the same keys: the counters of all keys it passes are then 0
            let mut y = x.to_vec();
            let mut z = self.b.clone();
            let r = Hive::without_validation(&mut y[..]).map(|mut h| h.clear_volatile_subkeys().is_ok());
            let s = Hive::without_validation(&mut z[..]).map(|mut h| h.clear_volatile_subkeys().is_ok());
            let mut same = r.is_ok() == s.is_ok() && r.ok() == s.ok();
            for i in 0..z.len() {
                if z[i] != self.b[i] {
                    same &= y[i] == z[i];
                }
            }
            (d, same)
        }) {
            Ok((d, same)) => {
                c.transitions += 1;
                c.outcome(d[0]);
                if d != self.want {
                    c.report(T_INERT, format!("{}: {} changes what is read", self.what, what()), Some(x));
                } else if !same {
                    c.report(T_INERT, format!("{}: {} changes what is cleared", self.what, what()), Some(x));
                }
            }
            Err(e) => c.report(&["C01", "C22"], format!("{}: {}: panic {e}", self.what, what()), Some(x)),
        }
    }
}

fn bases() -> Vec<Base> {
    let mut sd = refs::sd();
    sd.push(("small-big", refs::small_big()));
    sd.into_iter().map(|(n, i)| Base::new(n.into(), i.bytes).ready()).collect()
}

/// Every meaningless byte on its own.
fn bytes(name: &'static str, thorough: bool) -> Drv {
    let bs = Arc::new(bases());
    let mut cases: Vec<(u8, u32)> = vec![];
    for (i, b) in bs.iter().enumerate() {
        for p in 0..b.b.len() {
            if b.m[p] != 0xFF {
                cases.push((i as u8, p as u32));
            }
        }
    }
    let vals: Vec<u8> = if thorough { (0..=255).collect() } else { (0..8).map(|i| 1u8 << i).chain([0, 0xFF, 0x20, 0x2D, 0x7F, b'n', b'r', b'k']).collect() };
    let n = cases.len() as u64;
    Drv::new(name, format!("{n} meaningless bytes or bits of bytes of {} hives x {} values (few for the unchecked part of the header); checksum kept right", bs.len(), vals.len()), n, move |i, c| {
        let (s, p) = cases[i as usize];
        let (s, p) = (&bs[s as usize], p as usize);
        let mut x = s.b.clone();
        c.sample(|| format!("{} byte {p:#x}", s.what));
        let few = [0u8, 0x55, 0xFF];
        for v in if (512..BASE).contains(&p) || p > 40_000 { &few[..] } else { &vals[..] } {
            let v = v & !s.m[p] | s.b[p] & s.m[p];
            if v == s.b[p] {
                continue;
            }
            x[p] = v;
            if p < 508 {
                fix_checksum(&mut x);
            }
            s.compare(c, &mut x, || format!("byte {p:#x} = {v:#x}"));
            x[p] = s.b[p];
            x[508..512].copy_from_slice(&s.b[508..512]);
        }
    })
    .chunk(16)
}

/// All meaningless bits of the hive at once.
fn fill(b: &Base, x: &mut [u8], f: impl Fn(usize) -> u8) {
    for p in 0..b.b.len() {
        x[p] = f(p) & !b.m[p] | b.b[p] & b.m[p];
    }
    fix_checksum(x);
}

fn fills(name: &'static str, thorough: bool) -> Drv {
    let mut items: Vec<(String, Vec<u8>)> = bases().into_iter().map(|b| (b.what, b.b)).collect();
    items.extend(cross::intact_items(thorough).iter().map(|i| (i.what(), i.bytes())));
    for (n, b) in hinted() {
        items.push((n, b));
    }
    let n = items.len() as u64;
    let step = if thorough { 1 } else { 5 };
    Drv::new(name, format!("{n} hives of many forms, all meaningless bits at once set to {} patterns: constants, alternating words, copies of other parts of the hive", 256 / step + 40), n, move |i, c| {
        let (what, b) = &items[i as usize];
        let s = Base::new(what.clone(), b.clone()).ready();
        c.sample(|| what.clone());
        let mut x = s.b.clone();
        for v in (0..256usize).step_by(step) {
            fill(&s, &mut x, |_| v as u8);
            s.compare(c, &mut x, || format!("{v:#x} in all meaningless bytes"));
        }
        let words = [0u32, 1, 2, 0x20, 0x28, NONE, 0xFFFF_FFF8, 0x8000_0000, 0x7FFF_FFFF, 0x6b6e, 0x666c, 0x6972, 0x6b76];
        for (j, w) in words.iter().enumerate() {
            for k in [0, 2] {
                fill(&s, &mut x, |p| w.to_le_bytes()[(p + k) % 4]);
                s.compare(c, &mut x, || format!("word {j} at {k} in all meaningless bytes"));
            }
        }
        let n = s.b.len();
        for d in [4usize, 8, 16, 32, 64, 72, 80, 88, 96, 104, 256, 4096, 4128] {
            fill(&s, &mut x, |p| s.b[(p + d) % n]);
            s.compare(c, &mut x, || format!("copies from {d} bytes further on"));
            fill(&s, &mut x, |p| s.b[(p + n - d % n) % n]);
            s.compare(c, &mut x, || format!("copies from {d} bytes before"));
        }
    })
}

/// Lists whose hints and hashes are right, all zero, or those of the neighbouring entry; entries
/// with the same first four characters.
fn hinted() -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    for lt in LTS {
        for names in [vec!["abcd1", "abcd2", "ABCD3", "abcde"], vec!["a", "A1", "b", "\u{e4}"], vec!["x\u{410}", "x\u{430}y", "z"]] {
            let mut r = Key::l("R");
            r.subs = Subs::Leaf(lt, names.iter().map(|n| Ent::K(if n.chars().all(|c| (c as u32) < 256) { Key::l(n) } else { Key::new(Nm::u(n)) })).collect());
            let q = Key::l("top").leaf(Lt::Lh, vec![r.clone(), Key::l("S")]);
            v.push((format!("{lt:?} {names:?}"), build_tight(&r, 5).bytes));
            v.push((format!("{lt:?} {names:?} below"), build(&q, 5).bytes));
        }
    }
    v
}

/// Two meaningless words of the records at once.
fn pairs(name: &'static str, thorough: bool) -> Drv {
    let bs = Arc::new(bases());
    let mut cases: Vec<(u8, u32, u32)> = vec![];
    for (i, b) in bs.iter().enumerate() {
        // words without any meaning within the first 700 bytes of records, and of the header
        let lim = if thorough { 1500 } else { 420 };
        let ws: Vec<u32> = (12..508usize)
            .step_by(8)
            .filter(|p| *p < if thorough { 508 } else { 120 })
            .chain((BASE + 32..(BASE + lim).min(b.b.len() - 3)).step_by(4))
            .filter(|p| b.m[*p..*p + 4].iter().all(|m| *m == 0))
            .map(|p| p as u32)
            .collect();
        for (j, x) in ws.iter().enumerate() {
            for y in &ws[j + 1..] {
                cases.push((i as u8, *x, *y));
            }
        }
    }
    let n = cases.len() as u64;
    Drv::new(name, format!("{n} pairs of meaningless words of {} hives x 4 x 4 values (0, 1, all ones, a reference to another record)", bs.len()), n, move |i, c| {
        let (s, p, q) = cases[i as usize];
        let s = &bs[s as usize];
        let (p, q) = (p as usize, q as usize);
        let mut x = s.b.clone();
        c.sample(|| format!("{} words {p:#x} and {q:#x}", s.what));
        for v in [0u32, 1, NONE, 0x20] {
            for w in [0u32, 1, NONE, 0x20] {
                x[p..p + 4].copy_from_slice(&v.to_le_bytes());
                x[q..q + 4].copy_from_slice(&w.to_le_bytes());
                fix_checksum(&mut x);
                s.compare(c, &mut x, || format!("words {p:#x} = {v:#x}, {q:#x} = {w:#x}"));
            }
        }
    })
    .chunk(16)
}

/// Bytes behind the hive.
fn appended(name: &'static str) -> Drv {
    let bs = bases();
    let n = bs.len() as u64 * 24;
    Drv::new(name, format!("{} hives with 1..=8200 further bytes of 5 kinds behind them", bs.len()), n, move |i, c| {
        let s = &bs[i as usize / 24];
        let n = [1usize, 2, 3, 4, 7, 8, 9, 15, 16, 31, 32, 64, 100, 512, 1000, 4064, 4095, 4096, 4097, 4104, 8191, 8192, 8193, 8200][i as usize % 24];
        c.sample(|| format!("{} and {n} more", s.what));
        for k in 0..5usize {
            let mut x = s.b.clone();
            let l = x.len();
            match k {
                0 => x.resize(l + n, 0),
                1 => x.resize(l + n, 0xFF),
                2 => x.extend(pattern(n, 3)),
                3 => x.extend((0..n).map(|i| s.b[BASE + i % (l - BASE)])),
                _ => x.extend((0..n).map(|i| s.b[i % l])),
            }
            s.compare(c, &mut x, || format!("{n} further bytes of kind {k}"));
        }
    })
}

pub fn inert(q: bool) -> Vec<Drv> {
    vec![bytes("bytes", !q), fills("fills", !q), pairs("pairs", !q), appended("appended"), crate::room::inert("spare-room", T_INERT, !q)]
}

// ---------------------------------------------------------------------------------------------
// C23

fn kind(e: &NtHiveError) -> String {
    let s = format!("{e:?}");
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}

fn put_name(o: &mut String, r: &Result<NtHiveNameString, NtHiveError>) {
    match r {
        Ok(n) => {
            let _ = write!(o, "{n:?}/{}", n.to_string_lossy());
        }
        Err(e) => o.push_str(&kind(e)),
    }
}

fn cased(s: &str) -> [String; 2] {
    [s.to_lowercase(), s.to_uppercase()]
}

fn render_value(o: &mut String, v: &KeyValue<'_, &[u8]>) {
    o.push_str(" V ");
    put_name(o, &v.name());
    let _ = write!(o, " {:?} {}", v.data_type().map_err(|e| kind(&e)), v.data_size());
    match v.data() {
        Ok(d) => {
            if let KeyValueData::Big(it) = &d {
                let _ = write!(o, " segs {}", it.len());
                for s in it.clone() {
                    let _ = write!(o, " {:?}", s.map(|s| s.len()).map_err(|e| kind(&e)));
                }
            }
            match d.into_vec() {
                Ok(b) => {
                    let mut h = crate::digest::Fnv::new();
                    h.b(&b);
                    let _ = write!(o, " {} bytes {:x}", b.len(), h.0);
                }
                Err(e) => o.push_str(&kind(&e)),
            }
        }
        Err(e) => o.push_str(&kind(&e)),
    }
    let _ = write!(o, " {:?} {:?} {:?}", v.dword_data().map_err(|e| kind(&e)), v.qword_data().map_err(|e| kind(&e)), v.string_data().map_err(|e| kind(&e)));
    match v.multi_string_data() {
        Ok(it) => {
            for s in it.take(50) {
                let _ = write!(o, " {:?}", s.map_err(|e| kind(&e)));
            }
        }
        Err(e) => o.push_str(&kind(&e)),
    }
    o.push('\n');
}

fn render_key(o: &mut String, k: &KeyNode<'_, &[u8]>, depth: usize, left: &mut u32) {
    if *left == 0 {
        return;
    }
    *left -= 1;
    let _ = write!(o, "{depth} K ");
    put_name(o, &k.name());
    if let Some(c) = k.class_name() {
        put_name(o, &c);
    }
    o.push('\n');
    match k.values() {
        None => o.push_str("no values\n"),
        Some(Err(e)) => o.push_str(&kind(&e)),
        Some(Ok(it)) => {
            let _ = writeln!(o, "{} values", it.len());
            let vs: Vec<_> = it.take(40).collect();
            for v in &vs {
                match v {
                    Ok(v) => {
                        render_value(o, v);
                        if let Ok(n) = v.name() {
                            for n in cased(&n.to_string_lossy()) {
                                let i = k.value(&n).map(|r| r.map(|r| vs.iter().position(|x| x.as_ref().is_ok_and(|x| *x == r))).map_err(|e| kind(&e)));
                                let _ = writeln!(o, "find {n:?} {i:?}");
                            }
                        }
                    }
                    Err(e) => o.push_str(&kind(e)),
                }
            }
        }
    }
    for p in ["", "a\\b", "zz"] {
        let _ = writeln!(o, "{} {}", k.subpath(p).is_some(), k.value(p).is_some());
    }
    match k.subkeys() {
        None => o.push_str("no subkeys\n"),
        Some(Err(e)) => o.push_str(&kind(&e)),
        Some(Ok(it)) => {
            let _ = writeln!(o, "{:?} {} {}", it.size_hint(), it.clone().count(), matches!(it, SubKeyNodes::Leaf(_)));
            for n in 0..4 {
                let _ = write!(o, "{} ", it.clone().nth(n).is_some_and(|r| r.is_ok()));
            }
            let ks: Vec<_> = it.take(40).collect();
            for x in &ks {
                match x {
                    Ok(x) => {
                        render_key(o, x, depth + 1, left);
                        if let Ok(n) = x.name() {
                            for n in cased(&n.to_string_lossy()) {
                                for n in [n.clone(), format!("\\{n}\\")] {
                                    let i = k.subpath(&n).map(|r| r.map(|r| ks.iter().position(|x| x.as_ref().is_ok_and(|x| *x == r))).map_err(|e| kind(&e)));
                                    let _ = writeln!(o, "find {n:?} {i:?}");
                                }
                            }
                        }
                    }
                    Err(e) => {
                        o.push_str(&kind(e));
                        o.push('\n');
                    }
                }
            }
        }
    }
}

/// Everything readable, without any position.
pub fn render(b: &[u8]) -> String {
    let mut o = String::new();
    match Hive::new(b) {
        Err(e) => o.push_str(&kind(&e)),
        Ok(h) => match h.root_key_node() {
            Err(e) => o.push_str(&kind(&e)),
            Ok(k) => render_key(&mut o, &k, 0, &mut 60),
        },
    }
    o
}

/// Volatile counters after clearing, in walk order.
pub fn cleared(b: &[u8]) -> Option<(bool, Vec<u32>)> {
    cleared_in(&mut b.to_vec())
}

fn cleared_in(y: &mut [u8]) -> Option<(bool, Vec<u32>)> {
    let ok = Hive::without_validation(&mut *y).ok()?.clear_volatile_subkeys().is_ok();
    let m = Model::new(y);
    Some((ok, m.reachable(1000).0.iter().map(|k| m.u32(k.p + 24)).collect()))
}

/// How the space between the cells is used.
const LAYOUTS: [&str; 6] = ["side by side", "8 free bytes between", "free cells of growing size between", "each at the start of a bin of its own", "each at the end of a bin of its own", "3 KiB lower down"];

/// The hive with its cells laid out in the order `perm`.
fn relocate(img: &Img, perm: &[usize], layout: usize) -> Vec<u8> {
    relocate_with(img, perm, layout, &|_, _| ())
}

/// The same; `grow` may append to the bytes of a cell (its number and bytes, the size first).
pub fn relocate_with(img: &Img, perm: &[usize], layout: usize, grow: &dyn Fn(usize, &mut Vec<u8>)) -> Vec<u8> {
    let n = img.cells.len();
    let mut at = vec![0u32; n];
    let mut data: Vec<u8> = vec![];
    let bin = |d: &mut Vec<u8>| {
        let o = d.len() as u32;
        d.extend_from_slice(b"hbin");
        d.extend_from_slice(&o.to_le_bytes());
        d.extend_from_slice(&4096u32.to_le_bytes());
        d.resize(o as usize + 32, 0);
    };
    let free = |d: &mut Vec<u8>, n: usize| {
        let o = d.len();
        d.extend_from_slice(&(n as u32).to_le_bytes());
        d.resize(o + n, 0xDD);
    };
    bin(&mut data);
    if layout == 5 {
        free(&mut data, 3072);
    }
    for (j, i) in perm.iter().enumerate() {
        let (o, size) = img.cells[*i];
        let size = size as usize;
        match layout {
            1 => free(&mut data, 8),
            2 => free(&mut data, 8 + 8 * j),
            3 | 4 => {
                let r = (4096 - data.len() % 4096) % 4096;
                if r > 0 {
                    free(&mut data, r.max(8));
                    let l = data.len().next_multiple_of(4096);
                    data.resize(l, 0xDD);
                }
                bin(&mut data);
                if layout == 4 {
                    let gap = (4096 - 32 - size % 4096) % 4096;
                    if size < 4096 - 40 && gap >= 8 {
                        free(&mut data, gap);
                    }
                }
            }
            _ => (),
        }
        at[*i] = data.len() as u32;
        let mut cell = img.bytes[BASE + o as usize..BASE + o as usize + size].to_vec();
        grow(*i, &mut cell);
        if cell.len() != size {
            cell.resize(cell.len().next_multiple_of(8), 0);
            let l = -(cell.len() as i32);
            cell[..4].copy_from_slice(&l.to_le_bytes());
        }
        data.extend_from_slice(&cell);
    }
    let mut b = img.bytes[..BASE].to_vec();
    b.extend_from_slice(&data);
    point(img, &at, b)
}

/// Corrects the references in `b`, to which the cells of the hive have been copied at `at`.
fn point(img: &Img, at: &[u32], mut b: Vec<u8>) -> Vec<u8> {
    // references, wherever their field has gone to
    for f in &img.fields {
        if f.kind != FK::Ref {
            continue;
        }
        let v = get(&img.bytes, f);
        let inline = f.name == "vk.data" && img.bytes[f.pos - 1] & 0x80 != 0;
        let Some(t) = img.cells.iter().position(|c| c.0 == v) else { continue };
        if inline {
            continue;
        }
        let pos = if f.pos < BASE {
            f.pos
        } else {
            let r = (f.pos - BASE) as u32;
            let i = img.cells.iter().position(|c| c.0 <= r && r < c.0 + c.1).unwrap();
            BASE + (at[i] + r - img.cells[i].0) as usize
        };
        b[pos..pos + 4].copy_from_slice(&at[t].to_le_bytes());
    }
    let n = ((b.len() - BASE) / 4096 * 4096) as u32;
    b[40..44].copy_from_slice(&n.to_le_bytes());
    fix_checksum(&mut b);
    b
}

fn nth_perm(n: usize, mut i: u64) -> Vec<usize> {
    let mut rest: Vec<usize> = (0..n).collect();
    let mut v = vec![];
    for k in (1..=n).rev() {
        v.push(rest.remove((i % k as u64) as usize));
        i /= k as u64;
    }
    v
}

pub fn small(thorough: bool) -> Vec<(String, Img)> {
    let l = |n: &str| Key::l(n).vol(3);
    let mut v: Vec<(String, Img)> = vec![];
    for lt in LTS {
        v.push((format!("two keys in a list {lt:?}"), build_tight(&l("R").leaf(lt, vec![l("a"), l("b")]), 5)));
        v.push((format!("a chain in lists {lt:?}"), build_tight(&l("R").leaf(lt, vec![l("a").leaf(lt, vec![l("b")])]), 5)));
    }
    let mut r = l("R");
    r.subs = Subs::Root(vec![SubList::Leaf(Lt::Lf, vec![Ent::K(l("a"))]), SubList::Leaf(Lt::Li, vec![Ent::K(Key::new(Nm::u("\u{e4}")))])]);
    v.push(("an index of two lists".into(), build_tight(&r, 5)));
    v.push(("class and value".into(), build_tight(&l("R").class("cl").vals(vec![Val::new(Nm::l("v"), 1, sz("text\0"))]).leaf(Lt::Lh, vec![l("a")]), 5)));
    v.push(("two values".into(), build_tight(&l("R").vals(vec![Val::new(Nm::l("v"), 7, Dat::Cell(u16s("x\0yy\0\0"), 0)), Val::new(Nm::u("W"), 4, Dat::Cell(vec![1, 2, 3, 4], 0))]), 5)));
    v.push(("inline values".into(), build_tight(&l("R").vals(vec![Val::new(Nm::l("v"), 4, Dat::Inline(vec![0x20, 0, 0, 0])), Val::new(Nm::u("W"), 1, Dat::Inline(vec![0x41, 0])), Val::new(Nm::l(""), 0, Dat::Cell(vec![], 0))]), 5)));
    let text = |n: usize| Dat::Big { data: u16s(&"a\u{e9}".repeat(n / 4)), surplus: 0, slack: 0 };
    v.push(("two segments".into(), build_tight(&l("R").vals(vec![Val::new(Nm::l("v"), 1, text(SEG + 40))]), 5)));
    if thorough {
        let mut r = l("R");
        r.subs = Subs::Root(vec![SubList::Leaf(Lt::Lf, vec![Ent::K(l("a")), Ent::K(l("b"))]), SubList::Leaf(Lt::Lh, vec![Ent::K(l("c").class("x"))])]);
        v.push(("an index of three keys".into(), build_tight(&r, 5)));
        v.push(("tree with values".into(), build_tight(&l("R").leaf(Lt::Lf, vec![l("a").vals(vec![Val::new(Nm::l("v"), 3, Dat::Cell(vec![1, 2, 3, 4, 5], 0))]), l("b").leaf(Lt::Li, vec![l("c")])]), 5)));
        v.push(("three segments".into(), build_tight(&l("R").vals(vec![Val::new(Nm::l("v"), 3, text(2 * SEG + 40))]), 5)));
    }
    v
}

fn places(name: &'static str, thorough: bool) -> Drv {
    let v: Vec<(String, Img, String, Option<(bool, Vec<u32>)>)> = small(thorough)
        .into_iter()
        .map(|(w, i)| {
            let (r, c) = (render(&i.bytes), cleared(&i.bytes));
            (w, i, r, c)
        })
        .collect();
    let mut start = vec![0u64];
    for (_, i, _, _) in &v {
        start.push(start.last().unwrap() + (1..=i.cells.len() as u64).product::<u64>());
    }
    let n = *start.last().unwrap();
    let most = v.iter().map(|x| x.1.cells.len()).max().unwrap();
    Drv::new(name, format!("{} hives of up to {most} cells x every order of the cells ({n} in all) x {} layouts", v.len(), LAYOUTS.len()), n, move |i, c| {
        let s = start.partition_point(|x| *x <= i) - 1;
        let (what, img, want, wc) = &v[s];
        let perm = nth_perm(img.cells.len(), i - start[s]);
        c.sample(|| format!("{what} in the order {perm:?}"));
        for (l, ln) in LAYOUTS.iter().enumerate() {
            let b = relocate(img, &perm, l);
            c.states += 1;
            c.transitions += 1;
            match quiet(|| (render(&b), cleared(&b))) {
                Ok((got, gc)) => {
                    c.outcome(i ^ (l as u64) << 50);
                    if got != *want {
                        let d = got.lines().zip(want.lines()).find(|(a, b)| a != b).map(|(a, b)| format!("{a:?} instead of {b:?}")).unwrap_or_default();
                        c.report(T_PLACE, format!("{what}, cells in the order {perm:?}, {ln}: {d}"), Some(&b));
                    } else if gc != *wc {
                        c.report(T_PLACE, format!("{what}, cells in the order {perm:?}, {ln}: cleared {gc:?} instead of {wc:?}"), Some(&b));
                    }
                }
                Err(e) => c.report(&["C01", "C23"], format!("{what}, cells in the order {perm:?}, {ln}: panic {e}"), Some(&b)),
            }
        }
    })
    .chunk(8)
}

/// A hive as a whole further up, by every distance up to some pages and around powers of two; the
/// space before it is one free cell of the same bin.
fn shifts(name: &'static str, thorough: bool) -> Drv {
    let mut v: Vec<(String, Img)> = small(true);
    v.extend(seeds().into_iter().map(|(n, i)| (n.to_string(), i)));
    let mut ds: Vec<usize> = (1..if thorough { 8192 } else { 2048 }).map(|i| 8 * i).collect();
    for p in 15..if thorough { 26 } else { 23 } {
        for k in [-4128i64, -4096, -64, -32, -16, -8, 0, 8, 16, 32, 4064, 4096, 4128] {
            ds.push(((1i64 << p) + k) as usize);
        }
    }
    let nv = v.len() as u64;
    let want: Vec<_> = v.iter().map(|(_, i)| (render(&i.bytes), cleared(&i.bytes))).collect();
    Drv::new(name, format!("{nv} hives moved up as a whole by each of {} distances (all multiples of 8 to some pages, powers of two to {} MB)", ds.len(), ds.last().unwrap() >> 20), ds.len() as u64 * nv, move |i, c| {
        let (s, d) = ((i % nv) as usize, ds[(i / nv) as usize]);
        let (what, img) = &v[s];
        c.sample(|| format!("{what} moved by {d:#x}"));
        let mut b = img.bytes[..BASE + 32].to_vec();
        b.extend_from_slice(&(d as u32).to_le_bytes());
        b.resize(BASE + 32 + d, 0xDD);
        b.extend_from_slice(&img.bytes[BASE + 32..]);
        for f in &img.fields {
            let v = get(&img.bytes, f);
            if f.kind != FK::Ref || !img.cells.iter().any(|c| c.0 == v) || f.name == "vk.data" && img.bytes[f.pos - 1] & 0x80 != 0 {
                continue;
            }
            let p = if f.pos < BASE { f.pos } else { f.pos + d };
            b[p..p + 4].copy_from_slice(&(v + d as u32).to_le_bytes());
        }
        let n = ((b.len() - BASE) / 4096 * 4096) as u32;
        b[40..44].copy_from_slice(&n.to_le_bytes());
        fix_checksum(&mut b);
        c.states += 1;
        c.transitions += 1;
        match quiet(|| (render(&b), cleared(&b))) {
            Ok(got) => {
                c.outcome(i);
                if got != want[s] {
                    c.report(T_PLACE, format!("{what}, moved up by {d:#x}: other contents"), Some(&b));
                }
            }
            Err(e) => c.report(&["C01", "C23"], format!("{what}, moved up by {d:#x}: panic {e}"), Some(&b)),
        }
    })
    .chunk(16)
}

/// Cells whose offsets agree in their low bits.
fn distances(name: &'static str, thorough: bool) -> Drv {
    let mut v: Vec<(String, Img)> = small(thorough);
    v.extend(seeds().into_iter().take(if thorough { 9 } else { 2 }).map(|(n, i)| (n.to_string(), i)));
    let want: Vec<_> = v.iter().map(|(_, i)| (render(&i.bytes), cleared(&i.bytes))).collect();
    let top = 31;
    let mut ds: Vec<usize> = (3..=top).map(|k| 1 << k).collect();
    ds.extend([10usize, 100, 1000, 10000, 100000].map(|x| x * 8));
    // (hive, first cell, second cell, distance); all cells at that distance if the two are the same
    let mut cases: Vec<(usize, usize, usize, usize)> = vec![];
    for (h, (_, i)) in v.iter().enumerate() {
        let n = i.cells.len();
        for d in &ds {
            for a in 0..n {
                for b in 0..n {
                    if a != b && *d >= i.cells[a].1 as usize && *d <= 1 << if n > 12 { 24 } else { top } {
                        cases.push((h, a, b, *d));
                    }
                }
            }
            if i.cells.iter().all(|c| c.1 as usize <= *d) && n * d < 1 << 32 {
                cases.extend([(h, 0, 0, *d), (h, 1, 1, *d)]);
            }
        }
    }
    let n = cases.len() as u64;
    Drv::new(
        name,
        format!("{} hives with any two cells, or all of them in either order, laid at distances of 2^3 to 2^{top} (and some round ones) from one another", v.len()),
        n,
        move |i, c| {
            let (s, x, y, d) = cases[i as usize];
            let (what, img) = &v[s];
            let n = img.cells.len();
            let mut at = vec![0usize; n];
            if x == y {
                (0..n).for_each(|j| at[j] = 32 + d * if x == 0 { j } else { n - 1 - j });
            } else {
                (at[x], at[y]) = (32, 32 + d);
                let mut p = 32 + d + img.cells[y].1 as usize;
                for j in (0..n).filter(|j| *j != x && *j != y) {
                    at[j] = p;
                    p += img.cells[j].1 as usize;
                }
            }
            let end = (0..n).map(|j| at[j] + img.cells[j].1 as usize).max().unwrap();
            let say = || if x == y { format!("{what}, all cells {d:#x} bytes apart") } else { format!("{what}, cell {y} {d:#x} bytes behind cell {x}") };
            c.sample(say);
            let mut b = vec![0u8; (BASE + end).next_multiple_of(4096)];
            b[..BASE + 32].copy_from_slice(&img.bytes[..BASE + 32]);
            for j in 0..n {
                let (o, z) = (img.cells[j].0 as usize, img.cells[j].1 as usize);
                b[BASE + at[j]..][..z].copy_from_slice(&img.bytes[BASE + o..][..z]);
            }
            let mut b = point(img, &at.iter().map(|x| *x as u32).collect::<Vec<_>>(), b);
            c.states += 1;
            c.transitions += 1;
            match quiet(|| (render(&b), cleared_in(&mut b))) {
                Ok(got) => {
                    c.outcome(i);
                    if got != want[s] {
                        let m = got.0.lines().zip(want[s].0.lines()).find(|(a, b)| a != b).map(|(a, b)| format!("{a:?} instead of {b:?}")).unwrap_or_default();
                        c.report(T_PLACE, format!("{}: {m}", say()), (b.len() < 1 << 20).then_some(&b));
                    }
                }
                Err(e) => c.report(&["C01", "C23"], format!("{}: panic {e}", say()), (b.len() < 1 << 20).then_some(&b)),
            }
        },
    )
    .chunk(16)
}

/// Damage must show the same kind of error wherever the records lie.
fn damaged(name: &'static str, thorough: bool) -> Drv {
    let mut v: Vec<(String, Img, String)> = vec![];
    let mut cases: Vec<(u32, u64)> = vec![];
    for (w, img) in small(thorough) {
        if img.cells.len() > if thorough { 6 } else { 5 } {
            continue;
        }
        for f in &img.fields {
            if !matches!(f.kind, FK::Sig | FK::Count | FK::Len | FK::DataSize | FK::Type | FK::Flags) {
                continue;
            }
            for x in interesting(&img, f, true) {
                // only damage that does not turn something else into a reference, or one into data
                let le = (x as u16).to_le_bytes();
                if f.kind == FK::Sig && [b"lf", b"lh", b"li", b"ri"].contains(&&le) || f.kind == FK::DataSize && (x ^ get(&img.bytes, f)) >> 31 == 1 {
                    continue;
                }
                let mut i = img.clone();
                set(&mut i.bytes, f, x);
                let r = render(&i.bytes);
                for p in 0..(1..=img.cells.len() as u64).product::<u64>() {
                    cases.push((v.len() as u32, p));
                }
                v.push((format!("{w}, {} at {:#x} = {x:#x}", f.name, f.pos), i, r));
            }
        }
    }
    let n = cases.len() as u64;
    Drv::new(name, format!("{} hives of up to 6 cells with one damaged field x every order of the cells x 2 layouts", v.len()), n, move |i, c| {
        let (s, p) = cases[i as usize];
        let (what, img, want) = &v[s as usize];
        let perm = nth_perm(img.cells.len(), p);
        c.sample(|| format!("{what} in the order {perm:?}"));
        for l in [2, 3] {
            let b = relocate(img, &perm, l);
            c.states += 1;
            c.transitions += 1;
            match quiet(|| render(&b)) {
                Ok(got) => {
                    if got != *want {
                        let d = got.lines().zip(want.lines()).find(|(a, b)| a != b).map(|(a, b)| format!("{a:?} instead of {b:?}")).unwrap_or_default();
                        c.report(T_PLACE, format!("{what}, cells in the order {perm:?}, {}: {d}", LAYOUTS[l]), Some(&b));
                    }
                }
                Err(e) => c.report(&["C01", "C23"], format!("{what}, cells in the order {perm:?}: panic {e}"), Some(&b)),
            }
        }
    })
    .chunk(16)
}

/// Larger hives: every rotation, the reverse, and every single cell moved to the front or the end.
fn larger(name: &'static str) -> Drv {
    let mut v: Vec<(String, Img)> = vec![];
    for (n, i) in seeds().into_iter().chain(seeds_big()) {
        v.push((n.into(), i));
    }
    for k in 2..=4usize {
        for st in lists::structures(k, k) {
            let mut root = Key::l("R").vol(7);
            root.subs = lists::store(&st, (0..k).map(|i| Ent::K(Key::l(&format!("k{}", (b'a' + i as u8) as char)).vol(1))).collect());
            v.push((lists::stname(&st), build_tight(&root, 5)));
        }
    }
    let n = v.len() as u64;
    Drv::new(name, format!("{n} larger hives: every rotation of the cells, forwards and backwards, every cell moved to the front or to the end, every two cells exchanged, x {} layouts", LAYOUTS.len()), n, move |i, c| {
        let (what, img) = &v[i as usize];
        let want = (render(&img.bytes), cleared(&img.bytes));
        let k = img.cells.len();
        let mut perms: Vec<Vec<usize>> = vec![];
        for r in 0..k {
            let f: Vec<usize> = (0..k).map(|i| (i + r) % k).collect();
            perms.push(f.iter().rev().copied().collect());
            perms.push(f);
            let o: Vec<usize> = (0..k).filter(|i| *i != r).collect();
            perms.push([vec![r], o.clone()].concat());
            perms.push([o, vec![r]].concat());
            for s in 0..r {
                let mut p: Vec<usize> = (0..k).collect();
                p.swap(r, s);
                perms.push(p);
            }
        }
        c.sample(|| what.clone());
        for p in perms {
            for l in 0..LAYOUTS.len() {
                let b = relocate(img, &p, l);
                c.states += 1;
                c.transitions += 1;
                match quiet(|| (render(&b), cleared(&b))) {
                    Ok(got) => {
                        if got != want {
                            c.report(T_PLACE, format!("{what}, cells in the order {p:?}, {}: other contents", LAYOUTS[l]), Some(&b));
                        }
                    }
                    Err(e) => c.report(&["C01", "C23"], format!("{what}, cells in the order {p:?}: panic {e}"), Some(&b)),
                }
            }
        }
    })
}

/// The hive of the repository's tests: rotations and exchanges of its cells.
fn real_orders(name: &'static str, thorough: bool) -> Drv {
    let img = real::hive();
    let k = img.cells.len();
    let steps = if thorough { 128 } else { 12 };
    let mut perms: Vec<(String, Vec<usize>)> = vec![];
    for s in 0..steps {
        let r = s * k / steps;
        let f: Vec<usize> = (0..k).map(|i| (i + r) % k).collect();
        perms.push((format!("rotated by {r}, backwards"), f.iter().rev().copied().collect()));
        perms.push((format!("rotated by {r}"), f));
        // every (s + 2)nd cell first
        let d = s + 2;
        perms.push((format!("every {d}th first"), (0..d).flat_map(|x| (x..k).step_by(d)).collect()));
    }
    let want = (render(&img.bytes), cleared(&img.bytes));
    Drv::new(name, format!("the hive of the repository's tests: its {k} cells in {} orders x {} layouts", perms.len(), LAYOUTS.len()), perms.len() as u64, move |i, c| {
        let (what, p) = &perms[i as usize];
        c.sample(|| format!("testhive {what}"));
        for l in 0..LAYOUTS.len() {
            let b = relocate(&img, p, l);
            c.states += 1;
            c.transitions += 1;
            match quiet(|| (render(&b), cleared(&b))) {
                Ok(got) => {
                    c.outcome(i);
                    if got != want {
                        c.report(T_PLACE, format!("testhive, cells {what}, {}: other contents", LAYOUTS[l]), Some(&b));
                    }
                }
                Err(e) => c.report(&["C01", "C23"], format!("testhive, cells {what}: panic {e}"), Some(&b)),
            }
        }
    })
}

pub fn place(q: bool) -> Vec<Drv> {
    vec![real_orders("real-hive", !q), places("orders", !q), damaged("damaged", !q), shifts("shifts", !q), distances("distances", !q), larger("larger")]
}

