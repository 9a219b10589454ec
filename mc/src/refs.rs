//! C03: references, cell sizes, counts and signatures swept over their whole neighbourhoods.

use crate::engine::*;
use crate::faults::*;
use crate::img::*;
use crate::model::Model;
use crate::walk::*;
use nt_hive::Hive;
use std::sync::Arc;

/// Records nested inside data cells at every alignment: references into them must be judged by
/// the bytes found there, not by any notion of a cell map.
pub fn nested() -> Img {
    let mut b = B::new();
    let mut root = Key::l("R").vol(2);
    root = root.class("cl").vals(vec![
        Val::new(Nm::l("v"), 1, Dat::Cell(u16s("text"), 0)),
        Val::new(Nm::l("w"), 3, Dat::Cell(pattern(24, 3), 0)),
    ]);
    root.subs = Subs::Root(vec![
        SubList::Leaf(Lt::Lf, vec![Ent::K(Key::l("a"))]),
        SubList::Leaf(Lt::Li, vec![Ent::K(Key::l("b").leaf(Lt::Lh, vec![Key::l("c")]))]),
    ]);
    let o = b.key(&root, 0);
    b.record = false;
    for sh in 0..8usize {
        let off = b.alloc(300, "trap");
        let mut p = off as usize + 4 + sh;
        let put = |b: &mut B, p: &mut usize, size: usize, d: &[u8]| {
            b.p32(*p, (-(size as i32)) as u32);
            b.put(*p + 4, d);
            *p += size;
        };
        // a key with name "t<n>"
        let mut k = vec![0u8; 78];
        k[0..2].copy_from_slice(b"nk");
        k[2] = 0x20;
        for x in [28, 40, 48] {
            k[x..x + 4].fill(0xFF);
        }
        k[72] = 2;
        k[76] = b't';
        k[77] = b'0' + sh as u8;
        put(&mut b, &mut p, 88, &k);
        let mut v = vec![0u8; 21];
        v[0..2].copy_from_slice(b"vk");
        v[2] = 1;
        v[4..8].copy_from_slice(&0x8000_0002u32.to_le_bytes());
        v[12] = 3;
        v[16] = 1;
        v[20] = b'x';
        put(&mut b, &mut p, 32, &v);
        for s in [b"lf", b"li", b"ri"] {
            let mut l = vec![0u8; 12];
            l[0..2].copy_from_slice(s);
            l[2] = 1;
            l[4..8].copy_from_slice(&(off + 4 + sh as u32).to_le_bytes());
            put(&mut b, &mut p, 16, &l);
        }
    }
    b.finish_tight(o, 5)
}

pub fn small_big() -> Img {
    let mut data = pattern(SEG + 9, 4);
    data[0] = b'q';
    build_tight(
        &Key::l("B").vals(vec![Val::new(Nm::l("b"), 3, Dat::Big { data, surplus: 0, slack: 0 })]),
        5,
    )
}

pub fn sd() -> Vec<(&'static str, Img)> {
    let mut v = seeds();
    v.push(("nested", nested()));
    v
}

fn cfg() -> Cfg {
    Cfg { lookups: false, names: false, max_keys: 24, ..Cfg::structure() }
}

/// Every reference field to every byte offset of the data.
pub fn refs_everywhere(name: &'static str, sd: Vec<(&'static str, Img)>) -> Drv {
    refs_everywhere_cfg(name, sd, cfg(), 1)
}

pub fn refs_everywhere_cfg(name: &'static str, sd: Vec<(&'static str, Img)>, cfg: Cfg, step: u32) -> Drv {
    let sd = Arc::new(sd);
    let mut cases: Vec<(u8, u32, u32, u32)> = vec![];
    let mut tot = 0u64;
    for (i, (_, s)) in sd.iter().enumerate() {
        let dlen = (s.bytes.len() - BASE) as u32;
        for (j, f) in s.fields.iter().enumerate() {
            if f.kind != FK::Ref {
                continue;
            }
            let mut ranges = vec![(0, dlen + 24), (0u32.wrapping_sub(4200), 4200), (0x7FFF_EF00, 0x1200)];
            ranges.push((0x1_0000_0000u64.wrapping_sub(BASE as u64) as u32 - 16, 64));
            for (lo, n) in ranges {
                let mut a = 0;
                while a < n {
                    let m = (n - a).min(256);
                    cases.push((i as u8, j as u32, lo.wrapping_add(a), m));
                    tot += m as u64;
                    a += m;
                }
            }
        }
    }
    let n = cases.len() as u64;
    Drv::new(
        name,
        format!("every reference field of {} hives set to every byte offset (step {step}) of the data, past its end, and around 2^31 and 2^32 ({} hives)", sd.len(), tot / step as u64),
        n,
        move |idx, c| {
            let (s, j, lo, m) = cases[idx as usize];
            let (nm, img) = &sd[s as usize];
            let f = &img.fields[j as usize];
            c.sample(|| format!("seed {nm}: {} at {:#x} = {lo:#x}..+{m}", f.name, f.pos));
            let mut b = img.bytes.clone();
            for a in (0..m).step_by(step as usize) {
                set(&mut b, f, lo.wrapping_add(a));
                walk(c, &b, &cfg);
            }
        },
    )
}

/// Every cell with every size.
pub fn cell_sizes(name: &'static str, sd: Vec<(&'static str, Img)>, lim: i32) -> Drv {
    let sd = Arc::new(sd);
    let mut cases: Vec<(u8, u32, i32)> = vec![];
    for (i, (_, s)) in sd.iter().enumerate() {
        for (j, f) in s.fields.iter().enumerate() {
            if f.kind == FK::CellSize {
                let mut v = -lim;
                while v < lim {
                    cases.push((i as u8, j as u32, v));
                    v += 256;
                }
                cases.push((i as u8, j as u32, i32::MIN));
                cases.push((i as u8, j as u32, i32::MAX - 255));
                let d = (s.bytes.len() - BASE) as i32;
                cases.push((i as u8, j as u32, -d - 128));
            }
        }
    }
    let n = cases.len() as u64;
    Drv::new(
        name,
        format!("every cell of {} hives with every size -{lim}..{lim} and the extremes ({} hives)", sd.len(), n * 256),
        n,
        move |idx, c| {
            let (s, j, lo) = cases[idx as usize];
            let (nm, img) = &sd[s as usize];
            let f = &img.fields[j as usize];
            c.sample(|| format!("seed {nm}: {} at {:#x} = {lo}..+256", f.name, f.pos));
            let mut b = img.bytes.clone();
            let cfg = cfg();
            for a in 0..256 {
                set(&mut b, f, (lo as u32).wrapping_add(a));
                walk(c, &b, &cfg);
            }
        },
    )
}

/// 16-bit counts, lengths and signatures: all values; 32-bit counts and sizes: all neighbourhoods.
pub fn numbers(name: &'static str, sd: Vec<(&'static str, Img)>, tier: Tier) -> Drv {
    let sd = Arc::new(sd);
    let mut cases: Vec<(u8, u32, u32, u32)> = vec![];
    let mut seen = std::collections::HashSet::new();
    for (i, (nm, s)) in sd.iter().enumerate() {
        for (j, f) in s.fields.iter().enumerate() {
            let all16 = tier == Tier::Thorough || seen.insert((nm.starts_with("values") || *nm == "big", f.name));
            match (f.kind, f.width) {
                (FK::Count | FK::Len | FK::Sig, 2) => {
                    if all16 {
                        for k in 0..64 {
                            cases.push((i as u8, j as u32, k * 1024, 1024));
                        }
                    } else {
                        for (lo, n) in [(0u32, 512), (0x3F00, 0x200), (0x7F00, 0x200), (0xFF00, 0x100), (0x6B00, 0x100)] {
                            cases.push((i as u8, j as u32, lo, n));
                        }
                    }
                }
                (FK::Count | FK::DataSize | FK::Volatile, 4) => {
                    let top = if tier == Tier::Thorough { 70_000 } else { 3000 };
                    let mut a = 0;
                    while a < top {
                        cases.push((i as u8, j as u32, a, 1000));
                        a += 1000;
                    }
                    for k in 0..8u32 {
                        cases.push((i as u8, j as u32, (k << 29).wrapping_sub(70), 140));
                    }
                    for k in 1..=4u32 {
                        cases.push((i as u8, j as u32, k * SEG as u32 - 20, 40));
                        cases.push((i as u8, j as u32, 0x4000_0000u32.wrapping_mul(k).wrapping_add(SEG as u32 - 20), 40));
                    }
                    cases.push((i as u8, j as u32, 65535 * SEG as u32 - 20, 40));
                }
                _ => {}
            }
        }
    }
    let n = cases.len() as u64;
    let tot: u64 = cases.iter().map(|c| c.3 as u64).sum();
    Drv::new(
        name,
        format!("16-bit counts, lengths and signatures with every value; 32-bit counts and data sizes 0..3000 (thorough 70000) and +-70 around every multiple of 2^29 and of the segment size ({tot} hives)"),
        n,
        move |idx, c| {
            let (s, j, lo, m) = cases[idx as usize];
            let (nm, img) = &sd[s as usize];
            let f = &img.fields[j as usize];
            c.sample(|| format!("seed {nm}: {} at {:#x} = {lo:#x}..+{m}", f.name, f.pos));
            let mut b = img.bytes.clone();
            let cfg = cfg();
            for a in 0..m {
                set(&mut b, f, lo.wrapping_add(a));
                walk(c, &b, &cfg);
            }
        },
    )
}

/// Each referenced record moved to the very end of the data, then the data cut byte by byte, and
/// every count, length and size in the record moved around its exact fit at several cuts.
pub fn exact_fit(name: &'static str, sd: Vec<(&'static str, Img)>) -> Drv {
    let sd = Arc::new(sd);
    let mut cases: Vec<(u8, u32)> = vec![];
    for (i, (_, s)) in sd.iter().enumerate() {
        for (j, f) in s.fields.iter().enumerate() {
            if f.kind == FK::Ref && s.cells.iter().any(|c| c.0 == get(&s.bytes, f)) {
                cases.push((i as u8, j as u32));
            }
        }
    }
    let n = cases.len() as u64;
    Drv::new(
        name,
        format!("{n} referenced records, each moved to the end of the data: cut at every byte of the record, and at 12 cuts every count/length/size +-24 around its value"),
        n,
        move |idx, c| {
            let (s, j) = cases[idx as usize];
            let (nm, img) = &sd[s as usize];
            let f = &img.fields[j as usize];
            let t = get(&img.bytes, f);
            let size = img.cells.iter().find(|c| c.0 == t).unwrap().1 as usize;
            let from = t as usize + BASE;
            c.sample(|| format!("seed {nm}: record of {} at {from:#x} ({size} bytes) moved to the end", f.name));
            let mut b = img.bytes.clone();
            let new = b.len();
            let rec = b[from..from + size].to_vec();
            b.extend_from_slice(&rec);
            set(&mut b, f, (new - BASE) as u32);
            let cfg = cfg();
            for cut in 0..=size.min(400) + 8 {
                walk(c, &b[..b.len() - cut], &cfg);
            }
            // keep the declared cell size in step with the cut, too
            for cut in (0..size.min(400)).step_by(8) {
                let mut x = b[..b.len() - cut].to_vec();
                let sz = (-((size - cut) as i32)) as u32;
                x[new..new + 4].copy_from_slice(&sz.to_le_bytes());
                walk(c, &x, &cfg);
                // and a free cell after it
                x.extend_from_slice(&[16, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]);
                walk(c, &x, &cfg);
            }
            for g in &img.fields {
                if g.pos < from || g.pos >= from + size || matches!(g.kind, FK::Ref | FK::Sig | FK::Inert) {
                    continue;
                }
                let mut g2 = *g;
                g2.pos = g.pos - from + new;
                let orig = get(&b, &g2);
                for cut in [0usize, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 24] {
                    if g2.pos + g2.width > b.len() - cut {
                        continue;
                    }
                    let mut x = b[..b.len() - cut].to_vec();
                    for d in -24i32..=24 {
                        set(&mut x, &g2, orig.wrapping_add(d as u32));
                        walk(c, &x, &cfg);
                    }
                }
            }
        },
    )
}

// ---------------------------------------------------------------------------------------------
// Far offsets

/// The largest buffer a hive can address: 4 GiB of (lazily mapped) zeros behind the header.
/// `f` must leave it zeroed.
pub fn with_far<X>(f: impl FnOnce(&mut [u8]) -> X) -> X {
    use std::sync::{Mutex, OnceLock};
    static FAR: OnceLock<Mutex<Vec<u8>>> = OnceLock::new();
    let m = FAR.get_or_init(|| Mutex::new(vec![0u8; BASE + (1usize << 32)]));
    let mut g = m.lock().unwrap_or_else(|e| e.into_inner());
    f(&mut g)
}

/// The seeds moved to far data offsets: each cell in turn exactly at, and right before, every
/// power of two that matters for the width or sign of an offset.
pub fn far(name: &'static str, sd: Vec<(&'static str, Img)>, cfg: Cfg) -> Drv {
    let mut cases: Vec<(usize, u64)> = vec![];
    for (i, (_, s)) in sd.iter().enumerate() {
        let len = (s.bytes.len() - BASE) as u64;
        for c in &s.cells {
            for p in [1u64 << 16, 1 << 24, 1 << 28, 1 << 30, 1 << 31, 3 << 30] {
                cases.push((i, p - c.0 as u64));
                cases.push((i, p - 8 - c.0 as u64));
            }
        }
        cases.push((i, (1 << 32) - 8 - len.next_multiple_of(8)));
        cases.push((i, (1 << 32) - len.next_multiple_of(8)));
        cases.push((i, (1 << 31) - len.next_multiple_of(8)));
    }
    cases.sort();
    cases.dedup();
    let n = cases.len() as u64;
    Drv::new(
        name,
        format!("{} seeds in a 4 GiB buffer at {n} far places: every cell at and right before the data offsets 2^16, 2^24, 2^28, 2^30, 2^31, 3*2^30, and the whole at the very end", sd.len()),
        n,
        move |idx, c| {
            let (s, sh) = cases[idx as usize];
            let (nm, img) = &sd[s];
            let sh = sh as usize;
            c.sample(|| format!("seed {nm} moved by {sh:#x}"));
            let mut b = img.bytes.clone();
            for f in img.fields.iter().filter(|f| f.kind == FK::Ref) {
                let v = get(&b, f);
                if img.cells.iter().any(|c| c.0 == v) {
                    set(&mut b, f, v + sh as u32);
                }
            }
            let dsz = (sh + b.len() - BASE) / 4096 * 4096;
            b[40..44].copy_from_slice(&(dsz as u32).to_le_bytes());
            fix_checksum(&mut b);
            let (head, body) = b.split_at(BASE);
            with_far(|buf| {
                let at = BASE + sh;
                let end = at + body.len();
                buf[..BASE].copy_from_slice(head);
                buf[at..end].copy_from_slice(body);
                for e in [end, buf.len()] {
                    let part = &buf[..e];
                    walk(c, part, &Cfg { clear: false, ident: false, ..cfg.clone() });
                    if let Some(Err(e)) = c.call(&["C02"], "Hive::new", 0, part, || Hive::new(part).map(|_| ())) {
                        c.report(&["C02"], format!("rejected a hive of {sh:#x}+ bytes: {e:?}"), None);
                    }
                }
                if cfg.clear {
                    let (keys, damaged, _, _) = Model::new(buf).reachable(1000);
                    let mut want = body.to_vec();
                    for k in &keys {
                        want[k.p + 24 - at..k.p + 28 - at].fill(0);
                    }
                    let r = c.call(&["C16"], "clear_volatile_subkeys", 0, &[], || {
                        Hive::without_validation(&mut buf[..end]).unwrap().clear_volatile_subkeys()
                    });
                    let odd = if damaged { r.is_none() } else { r != Some(Ok(())) || buf[at..end] != want[..] };
                    if odd || buf[..BASE] != *head {
                        c.report(&["C16"], format!("clearing a tree at {sh:#x}: {r:?}, right bytes: {}", buf[at..end] == want[..]), None);
                    }
                }
                buf[..BASE].fill(0);
                buf[at..end].fill(0);
            });
        },
    )
    .chunk(4)
}

/// Every 32-bit field with every number made of extreme bytes, and changed by every single bit
/// and byte pattern.
pub fn extremes(name: &'static str, sd: Vec<(&'static str, Img)>, cfg: Cfg, tier: Tier) -> Drv {
    let sd = Arc::new(sd);
    let by: &[u8] = if tier == Tier::Quick { &[0, 1, 0x7F, 0x80, 0xFF] } else { &[0, 1, 2, 4, 8, 0x7F, 0x80, 0xFC, 0xFF] };
    let k = by.len() as u32;
    let mut g: Vec<u32> = (0..k.pow(4)).map(|i| u32::from_le_bytes([0, 1, 2, 3].map(|j| by[(i / k.pow(j) % k) as usize]))).collect();
    g.sort();
    g.dedup();
    let mut cases: Vec<(u8, u32)> = vec![];
    for (i, (_, s)) in sd.iter().enumerate() {
        cases.extend((0..s.fields.len()).filter(|j| s.fields[*j].width == 4).map(|j| (i as u8, j as u32)));
    }
    let n = cases.len() as u64;
    Drv::new(
        name,
        format!("{n} 32-bit fields x {} numbers with bytes out of {by:02x?}, and the stored number with each bit, each pair of bits and each byte changed", g.len()),
        n,
        move |idx, c| {
            let (s, j) = cases[idx as usize];
            let (nm, img) = &sd[s as usize];
            let f = &img.fields[j as usize];
            c.sample(|| format!("seed {nm}: {} at {:#x}", f.name, f.pos));
            let mut b = img.bytes.clone();
            let orig = get(&b, f);
            let mut one = |v: u32| {
                set(&mut b, f, v);
                walk(c, &b, &cfg);
            };
            g.iter().for_each(|v| one(*v));
            for x in 0..32 {
                for y in 0..=x {
                    one(orig ^ (1 << x | 1 << y));
                }
            }
            for x in 0..4 {
                for v in [0u32, 1, 0x7F, 0x80, 0xFF] {
                    one(orig & !(0xFF << (8 * x)) | v << (8 * x));
                }
            }
            one(orig.swap_bytes());
            one(!orig);
            one(orig.wrapping_neg());
        },
    )
    .chunk(2)
}
