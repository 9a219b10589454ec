//! Whatever the base block says besides where the root is: every form of hive and every single-field
//! fault again under other version numbers, and under odd headers. Only the version decides
//! anything, and only whether long data is stored in segments.

use crate::cross::{self, Item};
use crate::engine::*;
use crate::faults;
use crate::img::*;
use crate::inv;
use crate::refs;
use crate::walk::*;

const MAJORS: [u32; 5] = [1, 0, 2, 1 << 24, u32::MAX];
const MINORS: [u32; 12] = [5, 0, 1, 2, 3, 4, 6, 7, 256, 1 << 16, 1 << 31, u32::MAX];

fn with(b: &[u8], major: u32, minor: u32) -> Vec<u8> {
    let mut b = b.to_vec();
    if b.len() >= BASE {
        b[20..24].copy_from_slice(&major.to_le_bytes());
        b[24..28].copy_from_slice(&minor.to_le_bytes());
        fix_checksum(&mut b);
    }
    b
}

/// Every pair of version numbers for intact hives of many forms.
pub fn forms(name: &'static str, cfg: Cfg, thorough: bool) -> Drv {
    let mut v: Vec<Item> = vec![];
    for (n, i) in faults::seeds().into_iter().chain(refs::sd()).chain([("small-big", refs::small_big())]).chain(faults::seeds_big()) {
        v.push(Item::new(n, i.bytes));
    }
    let limit = if thorough { 1 << 30 } else { 60_000 };
    v.extend(cross::intact_items(thorough).into_iter().filter(|i| i.len() < limit));
    let n = v.len() as u64;
    Drv::new(
        name,
        format!("{n} hives of many forms, each under {} pairs of version numbers (majors {MAJORS:?}, minors {MINORS:?})", MAJORS.len() * MINORS.len()),
        n,
        move |i, c| {
            let it = &v[i as usize];
            c.sample(|| it.what());
            let b = it.bytes();
            for ma in MAJORS {
                for mi in MINORS {
                    walk(c, &with(&b, ma, mi), &cfg);
                }
            }
        },
    )
    .chunk(8)
}

/// Every single-field fault under other minor versions; every odd header.
pub fn faulty(name: &'static str, cfg: Cfg, thorough: bool) -> Drv {
    let minors: Vec<u32> = if thorough { MINORS.to_vec() } else { vec![3, 4, 6, 7, u32::MAX] };
    let mut sd = refs::sd();
    sd.push(("small-big", refs::small_big()));
    let f = cross::field_items(&sd);
    let h = cross::headers();
    let (nf, nh) = (f.len() as u64, h.len() as u64);
    Drv::new(
        name,
        format!("{nf} single-field faults under minor versions {minors:?}; {nh} odd headers"),
        nf + nh,
        move |i, c| {
            if i < nf {
                let it = &f[i as usize];
                c.sample(|| it.what());
                let b = it.bytes();
                for mi in &minors {
                    walk(c, &with(&b, 1, *mi), &cfg);
                }
            } else {
                let it = &h[(i - nf) as usize];
                c.sample(|| it.what());
                walk(c, &it.bytes(), &cfg);
            }
        },
    )
    .chunk(64)
}

/// Fields without any meaning, alone and two at once, and flags without one.
pub fn noise(name: &'static str, cfg: Cfg, thorough: bool) -> Drv {
    let mut hives: Vec<(String, Img)> = faults::tiny().into_iter().map(|(n, i)| (n.to_string(), i)).collect();
    hives.push(("mini".into(), build_tight(&faults::seed_mini(Lt::Lf), 5)));
    hives.push(("small-big".into(), refs::small_big()));
    if thorough {
        hives.extend(inv::small(false));
        hives.extend(refs::sd().into_iter().map(|(n, i)| (n.to_string(), i)));
    }
    // (position, width, value) of one record
    let vals = [0u32, 1, 2, 0x20, 0x1000_0000, 1 << 31, NONE];
    let mut cases: Vec<(usize, (usize, usize, u32), Vec<(usize, usize, u32)>)> = vec![];
    for (h, (_, img)) in hives.iter().enumerate() {
        for (at, size) in &img.cells {
            let (lo, hi) = (BASE + *at as usize, BASE + (*at + *size) as usize);
            let mut all: Vec<(usize, usize, u32)> = vec![];
            for f in img.fields.iter().filter(|f| f.pos >= lo && f.pos < hi) {
                match f.kind {
                    FK::Inert | FK::Volatile => {
                        all.extend(vals.iter().map(|v| if f.width == 2 { *v | *v >> 16 } else { *v }).map(|v| (f.pos, f.width, v)));
                        // alone
                        let most = if f.width == 2 && thorough { 0xFFFF } else { 300 };
                        for v in (0..8 * f.width).map(|k| 1u32 << k).chain(3..most) {
                            cases.push((h, (f.pos, f.width, v), vec![]));
                        }
                    }
                    FK::Flags => {
                        let cur = faults::get(&img.bytes, f);
                        let comp = if f.name.starts_with("nk") { 0x20 } else { 1 };
                        for a in 0..16 {
                            for b in 0..=a {
                                let x = 1u32 << a | 1 << b;
                                if x & comp == 0 {
                                    all.push((f.pos, 2, cur ^ x));
                                }
                            }
                        }
                    }
                    _ => (),
                }
            }
            for (i, a) in all.iter().enumerate() {
                cases.push((h, *a, all[i + 1..].iter().filter(|b| b.0 != a.0).copied().collect()));
            }
        }
    }
    let n = cases.iter().map(|c| 1 + c.2.len()).sum::<usize>();
    Drv::new(
        name,
        format!("{n} combinations of one or two meaningless fields, volatile counters and flags of a record, {} hives", hives.len()),
        cases.len() as u64,
        move |i, c| {
            let (h, a, bs) = &cases[i as usize];
            let mut x = hives[*h].1.bytes.clone();
            c.sample(|| format!("{}: {:#x} = {:#x} and another", hives[*h].0, a.0, a.2));
            let put = |x: &mut [u8], f: &(usize, usize, u32)| x[f.0..f.0 + f.1].copy_from_slice(&f.2.to_le_bytes()[..f.1]);
            put(&mut x, a);
            walk(c, &x, &cfg);
            let mut y = x.clone();
            for b in bs {
                put(&mut y, b);
                walk(c, &y, &cfg);
                y[b.0..b.0 + b.1].copy_from_slice(&x[b.0..b.0 + b.1]);
            }
        },
    )
    .chunk(8)
}
