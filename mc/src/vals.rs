//! Value families: value lists, data layouts, typed accessors, strings.

use crate::engine::*;
use crate::img::*;
use crate::model::*;
use crate::walk::*;
use nt_hive::{Hive, KeyValueData};
use std::sync::Arc;

/// Runs `f` on every value of the root key, paired with the model's.
pub fn with_values(c: &mut Ctx, img: &[u8], mut f: impl FnMut(&mut Ctx, &Model, &Kv, MVal)) {
    let m = Model::new(img);
    let h = match quiet(|| Hive::without_validation(img)) {
        Ok(Ok(h)) => h,
        _ => return,
    };
    let Some(Ok(root)) = c.call(T_ROOT, "root_key_node", 36, img, || h.root_key_node()) else { return };
    let Ok(mroot) = m.root() else { return };
    let Some(Some(Ok(it))) = c.call(T_VALS, "values", mroot.p, img, || root.values()) else { return };
    let Some(Ok(ents)) = m.values(mroot) else { return };
    let items = c.call(T_VALS, "values", mroot.p, img, || it.take(ents.len()).collect::<Vec<_>>());
    for (g, w) in items.unwrap_or_default().into_iter().zip(ents) {
        if let (Ok(g), Ok(w)) = (g, w) {
            c.states += 1;
            f(c, &m, &g, w);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C08

fn bad_vals(b: &mut B) -> Vec<u32> {
    let free = b.free_cell(24);
    b.put(free as usize + 4, b"vk");
    let nk = b.nk(&Key::l("x"), 0);
    let short = b.alloc(12, "short");
    b.put(short as usize + 4, b"vk");
    let long = b.val(&Val::new(Nm::l("a"), 1, Dat::Inline(vec![])));
    b.p16(long as usize + 6, 1000); // unreadable name
    vec![NONE, free, nk, short, long]
}

/// Every list of up to `max` entries over 6 names and 5 kinds of damage, with and without slack.
pub fn value_lists(name: &'static str, max: usize) -> Drv {
    let names = [Nm::l("a"), Nm::u("A"), Nm::l(""), Nm::l("\u{e4}"), Nm::u("\u{c4}b"), Nm::Raw(vec![0x61], false)];
    let k = (names.len() + 5) as u64;
    let n: u64 = (0..=max).map(|m| k.pow(m as u32)).sum();
    let mut cfg = Cfg {
        iters: false,
        typed: false,
        names: false,
        clear: false,
        lookups: true,
        paths: vec![],
        extra_probes: ["", "a", "A", "b", "\u{c4}", "\u{e4}", "\u{e4}B", "\0", "aa"].iter().map(|s| s.to_string()).collect(),
        ..Cfg::full()
    };
    cfg.max_keys = 1;
    Drv::new(
        name,
        format!("every value list of up to {max} entries over 6 names (case variants, both encodings, empty) and 5 kinds of damaged entries; 9 names looked up; count below the capacity of the list cell"),
        n,
        move |idx, c| {
            let mut i = idx;
            let mut m = 0;
            while i >= k.pow(m as u32) {
                i -= k.pow(m as u32);
                m += 1;
            }
            c.sample(|| format!("{m} values, combination {i}"));
            let mut b = B::quiet();
            let bad = bad_vals(&mut b);
            let root = b.nk(&Key::l("R"), 0);
            let mut offs = vec![];
            for j in 0..m {
                let x = (i % k) as usize;
                i /= k;
                offs.push(if x < names.len() {
                    b.val(&Val::new(names[x].clone(), 4, Dat::Inline(vec![j as u8, x as u8])))
                } else {
                    bad[x - names.len()]
                });
            }
            let extra = b.val(&Val::new(Nm::l("b"), 3, Dat::Inline(vec![9])));
            // one more entry than counted
            offs.push(extra);
            let l = b.vlist(&offs, 0);
            b.set_vals(root, l, m as u32);
            let img = b.finish_tight(root, 5);
            walk(c, &img.bytes, &cfg);
            // and everything counted
            let mut bytes = img.bytes;
            let p = root as usize + 4 + 36 + BASE;
            bytes[p] = m as u8 + 1;
            walk(c, &bytes, &cfg);
        },
    )
    .chunk(16)
}

/// Long value lists.
pub fn value_lists_long(name: &'static str, tier: Tier) -> Drv {
    let ns: Vec<usize> = if tier == Tier::Quick {
        vec![100, 127, 128, 129, 255, 256, 257, 1000, 32768, 65535, 65536, 65537, 70000]
    } else {
        vec![100, 127, 128, 129, 255, 256, 257, 1000, 16383, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131072, 200000]
    };
    let n = ns.len() as u64;
    Drv::new(name, format!("value lists of {ns:?} unsorted entries: full enumeration, every name (of up to 2000) looked up, first/last/absent in all"), n, move |idx, c| {
        let n = ns[idx as usize];
        c.sample(|| format!("{n} values"));
        let mut b = B::quiet();
        let root = b.nk(&Key::l("R"), 0);
        let mut offs = vec![];
        for i in 0..n {
            let s = format!("v{:05x}", (i as u32).wrapping_mul(40503) & 0xFFFFF);
            offs.push(b.val(&Val::new(Nm::l(&s), 4, Dat::Inline((i as u32).to_le_bytes().to_vec()))));
        }
        let l = b.vlist(&offs, 0);
        b.set_vals(root, l, n as u32);
        let img = b.finish_tight(root, 5);
        let img = &img.bytes[..];
        let h = Hive::without_validation(img).unwrap();
        let Ok(Some(k)) = quiet(|| h.root_key_node().ok()) else { return };
        c.states += 1;
        let got = c.call(T_VALS, "values", 36, img, || {
            k.values().map(|r| r.map(|it| it.take(n + 2).map(|v| v.ok().and_then(|v| val_id(img, &v))).collect::<Vec<_>>()))
        });
        let Some(Some(Ok(got))) = got else {
            c.report(T_VALS, format!("no value list of {n} entries"), None);
            return;
        };
        c.transitions += got.len() as u64;
        let want: Vec<usize> = offs.iter().map(|o| *o as usize + 4 + BASE).collect();
        if let Some(i) = (0..n.max(got.len())).find(|i| got.get(*i).copied().flatten() != want.get(*i).copied()) {
            c.report(T_VALS, format!("{n} values: item {i} is wrong ({} items)", got.len()), None);
            return;
        }
        if let Some((cnt, sh, last, nth)) = c.call(T_ITER, "count/size_hint/last/nth", 36, img, || {
            let it = k.values().unwrap().unwrap();
            (it.clone().count(), it.size_hint(), it.clone().last().and_then(|v| v.ok()).and_then(|v| val_id(img, &v)), it.clone().nth(n / 2).and_then(|v| v.ok()).and_then(|v| val_id(img, &v)))
        }) {
            if cnt != n || sh != (n, Some(n)) || last != want.last().copied() || nth != want.get(n / 2).copied() {
                c.report(T_ITER, format!("{n} values: count {cnt} size_hint {sh:?} last {last:x?} nth {nth:x?}"), None);
            }
        }
        // first occurrence of each name
        let mut first = std::collections::HashMap::new();
        for i in 0..n {
            first.entry((i as u32).wrapping_mul(40503) & 0xFFFFF).or_insert(i);
        }
        let probes: Vec<usize> = (0..n.min(2000)).step_by(if n > 5000 { 97 } else { 1 }).chain([n - 1, n / 2]).collect();
        for i in probes {
            let x = (i as u32).wrapping_mul(40503) & 0xFFFFF;
            let p = format!("V{x:05X}");
            let r = c.call(T_VAL, "value", 36, img, || k.value(&p).map(|r| r.ok().and_then(|v| val_id(img, &v))));
            if r != Some(Some(Some(want[first[&x]]))) {
                c.report(T_VAL, format!("{n} values: looking up {p:?} gives {r:x?}, expected {:#x}", want[first[&x]]), None);
                return;
            }
        }
        let r = c.call(T_VAL, "value", 36, img, || k.value("absent").is_some());
        if r == Some(true) {
            c.report(T_VAL, format!("{n} values: found an absent name"), None);
        }
    })
}

// ---------------------------------------------------------------------------------------------
// C09

fn sizes(tier: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=64).collect();
    if tier == Tier::Quick {
        v.extend((65..1000).step_by(13));
        for k in 1..=6usize {
            v.extend(k * SEG - 18..=k * SEG + 18);
            v.push(k * SEG + SEG / 2);
        }
        v.extend([255 * SEG, 255 * SEG + 1, 256 * SEG, 256 * SEG + 5, 257 * SEG]);
    } else {
        v.extend(65..3 * SEG + 40);
        for k in 4..=9usize {
            v.extend(k * SEG - 40..=k * SEG + 40);
        }
        for k in [127usize, 128, 255, 256, 257] {
            v.extend(k * SEG - 2..=k * SEG + 2);
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Every data size, every minor version, every storage the format allows for it, with spare room
/// and surplus segments.
pub fn data_sizes(name: &'static str, tier: Tier) -> Drv {
    let s = sizes(tier);
    let n = s.len() as u64;
    Drv::new(
        name,
        format!("{n} data sizes (0..{} and around every multiple of 16344) x minor versions 0, 3..7, 256, 2^31, 2^32-1 x inline / one cell / segments x spare bytes 0..=8 x surplus segments 0..=2", s[s.len() - 1]),
        n,
        move |idx, c| {
            let sz = s[s.len() - 1 - idx as usize];
            c.sample(|| format!("{sz} data bytes"));
            let data = pattern(sz, sz as u32);
            let mut lay: Vec<Dat> = vec![];
            if sz <= 4 {
                lay.push(Dat::Inline(data.clone()));
            }
            for slack in [0usize, 1, 4, 8] {
                lay.push(Dat::Cell(data.clone(), slack));
            }
            if sz > 0 {
                let combos: &[(usize, usize)] = if sz > 10 * SEG { &[(0, 0), (1, 4)] } else { &[(0, 0), (0, 4), (1, 0), (2, 8)] };
                for (surplus, slack) in combos {
                    lay.push(Dat::Big { data: data.clone(), surplus: *surplus, slack: *slack });
                }
            }
            for d in lay {
                let mut b = B::quiet();
                let o = b.key(&Key::l("V").vals(vec![Val::new(Nm::l("d"), 3, d)]), 0);
                let img = b.finish_tight(o, 5);
                let mut bytes = img.bytes;
                for minor in [0u32, 3, 4, 5, 6, 7, 256, 1 << 31, u32::MAX] {
                    bytes[24..28].copy_from_slice(&minor.to_le_bytes());
                    one_data(c, &bytes);
                }
            }
        },
    )
}

pub fn one_data(c: &mut Ctx, bytes: &[u8]) {
    with_values(c, bytes, |c, m, v, mv| {
        if let Some(got) = c.call(T_DATA, "data_size", mv.p, bytes, || v.data_size()) {
            if got != m.data_size(mv) {
                c.report(T_DATA, format!("data_size {got}, stored {}", m.data_size(mv)), Some(bytes));
            }
        }
        data(c, bytes, m, v, mv, true);
    });
}

/// Every state of every segment in lists of up to `max` segments.
pub fn seg_damage(name: &'static str, max: usize) -> Drv {
    // per segment: good, good with slack, shared with segment 0, NONE, free, 1 byte short, 8 short, wildly short, misaligned
    const K: u64 = 9;
    let n: u64 = (1..=max).map(|m| K.pow(m as u32)).sum();
    Drv::new(
        name,
        format!("big data of 1..={max} segments (one of them a partial last one), every segment in one of {K} states (good, spare, shared, 6 kinds of damage), all combinations; 3 total sizes each"),
        n,
        move |idx, c| {
            let mut i = idx;
            let mut m = 1;
            while i >= K.pow(m as u32) {
                i -= K.pow(m as u32);
                m += 1;
            }
            c.sample(|| format!("{m} segments, combination {i}"));
            let mut b = B::quiet();
            let root = b.nk(&Key::l("R"), 0);
            let free = b.free_cell(SEG);
            let mut offs: Vec<u32> = vec![];
            for j in 0..m {
                let x = i % K;
                i /= K;
                let seg = |b: &mut B, n: usize| {
                    let o = b.alloc(n, "seg");
                    let p = pattern(n, j as u32 + 7);
                    b.put(o as usize + 4, &p);
                    o
                };
                let o = match x {
                    0 => seg(&mut b, SEG),
                    1 => seg(&mut b, SEG + 16),
                    2 => offs.first().copied().unwrap_or(free),
                    3 => NONE,
                    4 => free,
                    5 => seg(&mut b, SEG - 1), // rounds up to a full one: 16340 payload
                    6 => seg(&mut b, SEG - 8),
                    7 => seg(&mut b, 100),
                    _ => {
                        let o = seg(&mut b, SEG);
                        o + 4
                    }
                };
                offs.push(o);
            }
            let d = b.db(&offs, m as u16, 0);
            let mut vs = vec![];
            for (t, sz) in [(1u32, m * SEG), (7, (m - 1) * SEG + 100), (3, (m - 1) * SEG + SEG - 3)] {
                let v = b.val(&Val::new(Nm::l("d"), t, Dat::Raw(sz as u32, d)));
                vs.push(v);
            }
            let l = b.vlist(&vs, 0);
            b.set_vals(root, l, vs.len() as u32);
            let img = b.finish_tight(root, 5);
            with_values(c, &img.bytes, |c, m, v, mv| {
                data(c, &img.bytes, m, v, mv, true);
                typed(c, &img.bytes, m, v, mv);
            });
        },
    )
    .chunk(4)
}

/// Very many segments: all 65535, shared cells.
pub fn seg_many(name: &'static str) -> Drv {
    let counts = [255usize, 256, 257, 4095, 4096, 32767, 32768, 65534, 65535];
    Drv::new(name, "big data lists of 255..=65535 segments (segments share cells), sizes around the limits", counts.len() as u64, move |idx, c| {
        let n = counts[idx as usize];
        c.sample(|| format!("{n} segments"));
        let mut b = B::quiet();
        let root = b.nk(&Key::l("R"), 0);
        let mut segs = vec![];
        for j in 0..3 {
            let o = b.alloc(SEG, "seg");
            let p = pattern(SEG, j);
            b.put(o as usize + 4, &p);
            segs.push(o);
        }
        let offs: Vec<u32> = (0..n).map(|i| segs[i * i % 3]).collect();
        let d = b.db(&offs, n as u16, 0);
        let mut vs = vec![];
        for sz in [n * SEG, n * SEG - 1, (n - 1) * SEG + 1, (n - 1) * SEG, n * SEG + 1, 5 * SEG] {
            vs.push(b.val(&Val::new(Nm::l("d"), 3, Dat::Raw(sz as u32, d))));
        }
        let l = b.vlist(&vs, 0);
        b.set_vals(root, l, vs.len() as u32);
        let img = b.finish_tight(root, 5).bytes;
        with_values(c, &img, |c, m, v, mv| {
            let want = m.data(mv);
            let got = c.call(T_DATA, "data", mv.p, &img, || v.data());
            let Some(got) = got else { return };
            if !agree(c, T_DATA, "data", mv.p, &img, &got, &want) {
                return;
            }
            let (Ok(KeyValueData::Big(it)), Ok(MData::Big(w))) = (got, want) else {
                c.report(T_DATA, "not delivered as segments".into(), Some(&img));
                return;
            };
            let base = img.as_ptr() as usize;
            let r = c.call(T_DATA, "slices", mv.p, &img, || {
                let sh = it.size_hint();
                let cnt = it.clone().count();
                let last = it.clone().last().and_then(|s| s.ok()).map(|s| (s.as_ptr() as usize - base, s.len()));
                let v: Vec<Option<(usize, usize)>> = it.map(|s| s.ok().map(|s| (s.as_ptr() as usize - base, s.len()))).collect();
                (sh, cnt, last, v)
            });
            if let Some((sh, cnt, last, v)) = r {
                let wl: Vec<Option<(usize, usize)>> = w.iter().map(|s| s.as_ref().ok().map(|s| (s.0, s.1 - s.0))).collect();
                c.transitions += wl.len() as u64;
                if v != wl {
                    c.report(T_DATA, format!("{} slices instead of {} or other content", v.len(), wl.len()), Some(&img));
                } else if sh != (wl.len(), Some(wl.len())) || cnt != wl.len() || last != *wl.last().unwrap() {
                    c.report(T_ITER, format!("{} slices: size_hint {sh:?} count {cnt} last {last:?}", wl.len()), Some(&img));
                }
            }
        });
    })
}

// ---------------------------------------------------------------------------------------------
// C10

fn type_codes(tier: Tier) -> Vec<u32> {
    let mut v: Vec<u32> = (0..=300).collect();
    for t in 0..=16u32 {
        for s in [8, 16, 24, 31] {
            v.push(t | 1 << s);
            v.push(t << s);
            v.push(t | 0xFF << 24);
        }
    }
    v.extend([NONE, 0x7FFF_FFFF, 0x8000_0000, 65535, 65536]);
    if tier == Tier::Thorough {
        v.extend(301..=70000);
    }
    v.sort();
    v.dedup();
    v
}

/// Type codes x sizes x layouts x contents.
pub fn typed_grid(name: &'static str, tier: Tier) -> Drv {
    let codes = type_codes(tier);
    let n = codes.len() as u64;
    Drv::new(
        name,
        format!("{n} type numbers x data sizes 0..=17 and 16345 x inline / cell / spare / segments x 3 contents, all accessors"),
        n,
        move |idx, c| {
            let ty = codes[idx as usize];
            c.sample(|| format!("type {ty:#x}"));
            let mut vals = vec![];
            let lim = if ty <= 20 { 17usize } else { 9 };
            for sz in 0..=lim {
                for pat in 0..3u32 {
                    let d: Vec<u8> = match pat {
                        0 => (0..sz).map(|i| 0x81u8.wrapping_add((17 * i) as u8)).collect(),
                        1 => pattern(sz, ty ^ 5),
                        _ => (0..sz).map(|i| if i % 2 == 0 { 0x41 + i as u8 } else { 0 }).collect(),
                    };
                    if sz <= 4 {
                        vals.push(Val::new(Nm::l("i"), ty, Dat::Inline(d.clone())));
                    }
                    for slack in [0, 3, 8] {
                        vals.push(Val::new(Nm::l("c"), ty, Dat::Cell(d.clone(), slack)));
                    }
                    if ty <= 12 {
                        // shorter cell than declared
                        let mut v = Val::new(Nm::l("s"), ty, Dat::Cell(d.clone(), 0));
                        v.slack = 1;
                        vals.push(v);
                    }
                }
            }
            if ty <= 12 {
                vals.push(Val::new(Nm::l("b"), ty, Dat::Big { data: pattern(SEG + 1, 3), surplus: 0, slack: 0 }));
                vals.push(Val::new(Nm::l("b"), ty, Dat::Cell(pattern(SEG, 3), 0)));
                for n in 5..=9u32 {
                    vals.push(Val::new(Nm::l("x"), ty, Dat::Raw(0x8000_0000 | n, 0x41424344)));
                    vals.push(Val::new(Nm::l("x"), ty, Dat::Raw(n, NONE)));
                }
                vals.push(Val::new(Nm::l("x"), ty, Dat::Raw(0xFFFF_FFFF, 0x41424344)));
                vals.push(Val::new(Nm::l("x"), ty, Dat::Raw(0x8000_0000, 0x41424344)));
            }
            let mut b = B::quiet();
            let o = b.key(&Key::l("V").vals(vals), 0);
            let bytes = b.finish_tight(o, 5).bytes;
            with_values(c, &bytes, |c, m, v, mv| {
                c.exact = true;
                typed(c, &bytes, m, v, mv);
                c.exact = false;
            });
        },
    )
}

/// Byte order: each byte of a number alone set to each value.
pub fn num_bytes(name: &'static str) -> Drv {
    Drv::new(name, "DWORD (inline and cell, both byte orders) and QWORD: every byte position x all 256 values on two backgrounds", 256, |idx, c| {
        c.sample(|| format!("byte value {idx:#x} in every position"));
        let mut vals = vec![];
        for bg in [0u8, 0xFF] {
            for p in 0..8usize {
                let mut d = vec![bg; 8];
                d[p] = idx as u8;
                vals.push(Val::new(Nm::l("q"), 11, Dat::Cell(d.clone(), 0)));
                if p < 4 {
                    for ty in [4u32, 5] {
                        vals.push(Val::new(Nm::l("d"), ty, Dat::Inline(d[..4].to_vec())));
                        vals.push(Val::new(Nm::l("d"), ty, Dat::Cell(d[..4].to_vec(), 4)));
                    }
                }
            }
        }
        let mut b = B::quiet();
        let o = b.key(&Key::l("V").vals(vals), 0);
        let bytes = b.finish_tight(o, 5).bytes;
        with_values(c, &bytes, |c, m, v, mv| typed(c, &bytes, m, v, mv));
    })
}

/// Every pair of byte positions of a number x all 65536 pairs of values.
pub fn num_pairs(name: &'static str) -> Drv {
    Drv::new(name, "DWORD (inline and cell, both byte orders) and QWORD: every pair of byte positions x all 65536 pairs of values", 256, |idx, c| {
        c.sample(|| format!("byte value {idx:#x} in every position, every value in every later one"));
        for p in 0..7usize {
            let mut vals = vec![];
            for q in p + 1..8usize {
                for w in 0..=255u8 {
                    let mut d = vec![0x5Au8; 8];
                    d[p] = idx as u8;
                    d[q] = w;
                    vals.push(Val::new(Nm::l("q"), 11, Dat::Cell(d.clone(), 0)));
                    if q < 4 {
                        for ty in [4u32, 5] {
                            vals.push(Val::new(Nm::l("d"), ty, Dat::Inline(d[..4].to_vec())));
                            vals.push(Val::new(Nm::l("d"), ty, Dat::Cell(d[..4].to_vec(), 4)));
                        }
                    }
                }
            }
            let mut b = B::quiet();
            let o = b.key(&Key::l("V").vals(vals), 0);
            let bytes = b.finish_tight(o, 5).bytes;
            with_values(c, &bytes, |c, m, v, mv| typed(c, &bytes, m, v, mv));
        }
    })
}

// ---------------------------------------------------------------------------------------------
// C11 / C12

pub const UNITS: [u16; 7] = [0, 0x61, 0xE9, 0xD801, 0xDC37, 0xFFFF, 0x6100];

fn seq(idx: u64, k: u64) -> Vec<u16> {
    let mut i = idx;
    let mut l = 0;
    while i >= k.pow(l) {
        i -= k.pow(l);
        l += 1;
    }
    (0..l)
        .map(|_| {
            let x = UNITS[(i % k) as usize];
            i /= k;
            x
        })
        .collect()
}

fn le(u: &[u16]) -> Vec<u8> {
    u.iter().flat_map(|x| x.to_le_bytes()).collect()
}

/// All short unit strings in small storage, with and without an odd last byte.
pub fn strings_small(name: &'static str, len: u32, ty: u32) -> Drv {
    let k = UNITS.len() as u64;
    let n: u64 = (0..=len).map(|l| k.pow(l)).sum();
    Drv::new(
        name,
        format!("every string of up to {len} code units over {UNITS:x?}, with and without an odd last byte, inline / cell / cell with spare bytes / old hive"),
        n,
        move |idx, c| {
            let u = seq(idx, k);
            c.sample(|| format!("units {u:x?}"));
            let mut vals = vec![];
            for odd in [None, Some(0u8), Some(0x41), Some(0xD8)] {
                let mut d = le(&u);
                d.extend(odd);
                if d.len() <= 4 {
                    vals.push(Val::new(Nm::l("i"), ty, Dat::Inline(d.clone())));
                }
                vals.push(Val::new(Nm::l("c"), ty, Dat::Cell(d.clone(), 0)));
                vals.push(Val::new(Nm::l("c"), ty, Dat::Cell(d, 6)));
            }
            let mut b = B::quiet();
            let o = b.key(&Key::l("V").vals(vals), 0);
            let bytes = b.finish_tight(o, 5).bytes;
            with_values(c, &bytes, |c, m, v, mv| typed(c, &bytes, m, v, mv));
        },
    )
    .chunk(32)
}

/// All short unit strings laid across a segment boundary at every position.
pub fn strings_split(name: &'static str, len: u32, ty: u32) -> Drv {
    let k = UNITS.len() as u64;
    let n: u64 = (0..=len).map(|l| k.pow(l)).sum();
    Drv::new(
        name,
        format!("every string of up to {len} code units laid across the boundary of two 16344-byte segments at every position, followed by the end, an odd byte or more text; same text with a NUL long before; compared with one-cell storage in an old hive"),
        n,
        move |idx, c| {
            let u = seq(idx, k);
            c.sample(|| format!("units {u:x?} across the boundary"));
            let cut_max = u.len();
            for cut in 0..=cut_max {
                // `cut` units before the boundary
                let lead = SEG / 2 - cut;
                for (pre, tail) in [(0, 0), (1, 1), (2, 2), (0, 3), (3, 2)] {
                    let mut units: Vec<u16> = vec![0x78; lead];
                    if pre == 1 {
                        units[lead / 2] = 0;
                    }
                    if pre == 2 {
                        units[lead - 1] = 0xD83D; // a high surrogate just before
                    }
                    if pre == 3 {
                        units[lead - 1] = 0;
                    }
                    units.extend(&u);
                    match tail {
                        2 => units.extend([0xDE00, 0x79, 0, 0x7a]),
                        _ => {}
                    }
                    let mut d = le(&units);
                    if tail == 1 || tail == 3 {
                        d.push(0x44);
                    }
                    if d.len() <= SEG {
                        d.extend(le(&[0x71, 0x72]));
                    }
                    let mut b = B::quiet();
                    let o = b.key(&Key::l("V").vals(vec![Val::new(Nm::l("b"), ty, Dat::Big { data: d.clone(), surplus: 0, slack: 0 })]), 0);
                    let bytes = b.finish_tight(o, 5).bytes;
                    with_values(c, &bytes, |c, m, v, mv| text_only(c, &bytes, m, v, mv, ty));
                    if tail == 2 && cut == cut_max {
                        let mut b = B::quiet();
                        let o = b.key(&Key::l("V").vals(vec![Val::new(Nm::l("b"), ty, Dat::Cell(d, 0))]), 0);
                        let bytes = b.finish_tight(o, 3).bytes;
                        with_values(c, &bytes, |c, m, v, mv| text_only(c, &bytes, m, v, mv, ty));
                    }
                }
            }
        },
    )
    .chunk(4)
}

fn text_only(c: &mut Ctx, bytes: &[u8], m: &Model, v: &Kv, mv: MVal, ty: u32) {
    if ty == 7 {
        multi(c, bytes, m, v, mv);
        return;
    }
    let Some(got) = c.call(T_STR, "string_data", mv.p, bytes, || v.string_data()) else { return };
    let (want, err_ok) = m.string(mv);
    if err_ok && got.is_err() {
        return;
    }
    if agree(c, T_STR, "string_data", mv.p, bytes, &got, &want) && got.as_ref().ok() != want.as_ref().ok() {
        c.report(&["C11"], format!("string_data: {} expected {}", short(&got.unwrap()), short(&want.unwrap())), Some(bytes));
    }
}

/// Two boundaries at once: 2 units around each of them.
pub fn strings_two(name: &'static str, ty: u32) -> Drv {
    let k = UNITS.len() as u64;
    Drv::new(
        name,
        "three segments, all combinations of two units around the first and two around the second boundary; last segment of 0..=2 units",
        k.pow(4),
        move |idx, c| {
            let x: Vec<u16> = (0..4).map(|i| UNITS[(idx / k.pow(i) % k) as usize]).collect();
            c.sample(|| format!("units {x:x?} around two boundaries"));
            let h = SEG / 2;
            for last in [1usize, 2, 5] {
                let mut u = vec![0x78u16; 2 * h + last];
                u[h - 1] = x[0];
                u[h] = x[1];
                u[2 * h - 1] = x[2];
                u[2 * h] = x[3];
                let mut b = B::quiet();
                let o = b.key(&Key::l("V").vals(vec![Val::new(Nm::l("b"), ty, Dat::Big { data: le(&u), surplus: 1, slack: 0 })]), 0);
                let bytes = b.finish_tight(o, 5).bytes;
                with_values(c, &bytes, |c, m, v, mv| text_only(c, &bytes, m, v, mv, ty));
            }
        },
    )
    .chunk(4)
}

/// Every BMP code unit alone, in front of and behind a surrogate.
pub fn strings_units(name: &'static str, ty: u32) -> Drv {
    Drv::new(name, "every single code unit 0..=0xFFFF between letters, after a high and before a low surrogate", 256, move |idx, c| {
        c.sample(|| format!("units {:#x}..", idx * 256));
        let mut vals = vec![];
        for l in 0..256u32 {
            let u = (idx as u32 * 256 + l) as u16;
            vals.push(Val::new(Nm::l("a"), ty, Dat::Cell(le(&[0x61, u, 0x62]), 0)));
            vals.push(Val::new(Nm::l("b"), ty, Dat::Cell(le(&[0xD83D, u, 0xDE00]), 0)));
            vals.push(Val::new(Nm::l("c"), ty, Dat::Inline(le(&[u]))));
        }
        let mut b = B::quiet();
        let o = b.key(&Key::l("V").vals(vals), 0);
        let bytes = b.finish_tight(o, 5).bytes;
        with_values(c, &bytes, |c, m, v, mv| typed(c, &bytes, m, v, mv));
    })
}

/// Every code unit at the two sides of a segment boundary and of a string's ends, and every pair
/// of representative units next to each other, in one cell and across a boundary.
pub fn strings_edge(name: &'static str, ty: u32, across: usize) -> Drv {
    let reps = Arc::new(crate::names::reps());
    // units with a meaning in texts first, then an even choice of the others
    let mut near: Vec<u16> = vec![0, 1, 9, 10, 13, 26, 32, 34, 36, 37, 44, 48, 59, 61, 64, 65, 92, 97, 124, 127, 0x85, 0xA0, 0xAD, 0x200B, 0x200E, 0x2028, 0x2029, 0x20AC, 0x3000, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x0A00, 0x0D00, 0x6100];
    let step = reps.len().div_ceil(across).max(1);
    near.extend(reps.iter().step_by(step));
    near.sort();
    near.dedup();
    let near = Arc::new(near);
    let (nr, nn) = (reps.len() as u64, near.len() as u64);
    Drv::new(
        name,
        format!("all 65536 code units as the last of a segment, the first of the next, both, doubled, and first or last of a text, alone or before a NUL; all {nr}^2 pairs of representative units in one cell and all {nn}^2 of {nn} across a segment boundary"),
        256 + nr + nn,
        move |idx, c| {
            let mut one = |c: &mut Ctx, vals: Vec<Val>| {
                let mut b = B::quiet();
                let o = b.key(&Key::l("V").vals(vals), 0);
                let bytes = b.finish_tight(o, 5).bytes;
                with_values(c, &bytes, |c, m, v, mv| text_only(c, &bytes, m, v, mv, ty));
            };
            if idx >= 256 && idx < 256 + nr {
                let u = reps[(idx - 256) as usize];
                c.sample(|| format!("unit {u:#x} before each other one in a cell"));
                let vals = reps.iter().map(|w| Val::new(Nm::l("p"), ty, Dat::Cell(le(&[0x61, u, *w, 0x62]), 0))).collect();
                one(c, vals);
                return;
            }
            // one hive; the units around the boundary are exchanged in place
            let h = SEG / 2;
            let mut t = vec![0x78u16; h + 3];
            t[h - 2] = 0x1234;
            t[h + 2] = 0x79;
            let find = |bytes: &[u8], x: &[u8]| bytes.windows(x.len()).position(|w| w == x).unwrap();
            t[h - 1] = 0xABCD;
            t[h] = 0xBCDE;
            let mut b = B::quiet();
            let o = b.key(&Key::l("V").vals(vec![Val::new(Nm::l("b"), ty, Dat::Big { data: le(&t), surplus: 0, slack: 0 })]), 0);
            let mut bytes = b.finish_tight(o, 5).bytes;
            let l = find(&bytes, &[0x34, 0x12, 0xCD, 0xAB]) + 2;
            let r = find(&bytes, &[0xDE, 0xBC, 0x78, 0x00, 0x79]);
            let mut put = |c: &mut Ctx, x: u16, y: u16| {
                bytes[l..l + 2].copy_from_slice(&x.to_le_bytes());
                bytes[r..r + 2].copy_from_slice(&y.to_le_bytes());
                with_values(c, &bytes, |c, m, v, mv| text_only(c, &bytes, m, v, mv, ty));
            };
            if idx >= 256 + nr {
                let u = near[(idx - 256 - nr) as usize];
                c.sample(|| format!("unit {u:#x} before each other one across a boundary"));
                for w in near.iter() {
                    put(c, u, *w);
                }
                return;
            }
            c.sample(|| format!("units {:#x}.. at edges", idx * 256));
            let mut vals = vec![];
            for u in (0..256).map(|l| (idx * 256 + l) as u16) {
                put(c, u, 0x79);
                put(c, 0x79, u);
                put(c, u, u);
                put(c, u, 0);
                put(c, 0, u);
                for t in [&[u, 0x62][..], &[0x61, u], &[u, u], &[0x61, u, u, 0x62], &[u, 0], &[0x61, u, 0], &[0x61, 0, u], &[0, u], &[0x61, 0, u, 0], &[u, 0, u, 0, 0]] {
                    vals.push(Val::new(Nm::l("c"), ty, Dat::Cell(le(t), 0)));
                }
            }
            one(c, vals);
        },
    )
}

/// Strings whose segments are damaged in every way, texts with and without an early NUL.
pub fn strings_damaged(name: &'static str, ty: u32) -> Drv {
    let texts: Arc<Vec<Vec<u16>>> = Arc::new({
        let h = SEG / 2;
        let mut v = vec![];
        for (a, bpos) in [(usize::MAX, 0), (3, 0), (h - 1, 0), (h, 0), (h + 1, 0), (2 * h - 1, 0), (2 * h, 0), (3, 4), (h - 1, h), (h, h + 1)] {
            let mut u = vec![0x78u16; 2 * h + 40];
            if a != usize::MAX {
                u[a] = 0;
            }
            if bpos != 0 {
                u[bpos] = 0;
            }
            v.push(u);
        }
        v
    });
    let nt = texts.len() as u64;
    Drv::new(name, "three-segment texts with NULs at 10 placements, every segment in one of 5 states", nt * 125, move |idx, c| {
        let u = &texts[(idx % nt) as usize];
        let st = idx / nt;
        c.sample(|| format!("text {} segment states {st}", idx % nt));
        let d = le(u);
        let mut b = B::quiet();
        let root = b.nk(&Key::l("R"), 0);
        let mut offs = vec![];
        for (j, ch) in d.chunks(SEG).enumerate() {
            offs.push(match st / 5u64.pow(j as u32) % 5 {
                0 => {
                    let o = b.alloc(ch.len(), "s");
                    b.put(o as usize + 4, ch);
                    o
                }
                1 => NONE,
                2 => b.free_cell(ch.len()),
                3 => {
                    let o = b.alloc(ch.len() - 10, "s");
                    let s = &ch[..ch.len() - 10];
                    b.put(o as usize + 4, s);
                    o
                }
                _ => {
                    let o = b.alloc(ch.len() + 24, "s");
                    b.put(o as usize + 4, ch);
                    o
                }
            });
        }
        let dd = b.db(&offs, 3, 0);
        let v = b.val(&Val::new(Nm::l("s"), ty, Dat::Raw(d.len() as u32, dd)));
        let l = b.vlist(&[v], 0);
        b.set_vals(root, l, 1);
        let bytes = b.finish_tight(root, 5).bytes;
        with_values(c, &bytes, |c, m, v, mv| {
            typed(c, &bytes, m, v, mv);
            data(c, &bytes, m, v, mv, false);
        });
    })
    .chunk(4)
}

/// Long texts: lengths around every power of two and every segment multiple, the end marked by a
/// NUL, an odd byte or nothing, in one cell or in segments.
pub fn strings_long(name: &'static str, ty: u32, tier: Tier) -> Drv {
    let h = SEG / 2;
    let mut ls: Vec<usize> = vec![];
    for p in 5..=(if tier == Tier::Quick { 20 } else { 24 }) {
        ls.extend([(1usize << p) - 1, 1 << p, (1 << p) + 1]);
    }
    for k in [1usize, 2, 3, 4, 5, 7, 8, 16] {
        ls.extend([k * h - 1, k * h, k * h + 1]);
    }
    ls.extend([100, 1000, 10_000, 50_000, 100_000, 200_000]);
    ls.sort();
    ls.dedup();
    let n = ls.len() as u64;
    Drv::new(
        name,
        format!("texts of {n} lengths from 31 to {} code units (around powers of two and segment multiples), 5 contents x 5 endings, in one cell and in segments", ls[ls.len() - 1]),
        n * 5,
        move |idx, c| {
            let l = ls[ls.len() - 1 - (idx / 5) as usize];
            let kind = idx % 5;
            c.sample(|| format!("{l} units, content {kind}"));
            let mut u: Vec<u16> = (0..l)
                .map(|i| match kind {
                    0 => 0x61 + (i % 23) as u16,
                    1 => [0xD83D, 0xDE00][i % 2],
                    2 => [0x61, 0xD83D, 0xDE00][i % 3],
                    // for lists: strings of one unit, or of growing length
                    3 => if ty == 7 && i % 2 == 1 { 0 } else { 0x62 + (i % 19) as u16 },
                    _ => if ty == 7 && i % 1000 == 999 { 0 } else { 0x3042 + (i % 61) as u16 },
                })
                .collect();
            for end in 0..5 {
                let mut d = match end {
                    0 => le(&u),
                    1 => le(&[&u[..], &[0, 0x71, 0x72]].concat()),
                    2 => le(&[&u[..], &[0]].concat()),
                    3 => le(&[&u[..], &[0, 0, 0x71]].concat()),
                    _ => {
                        let mut d = le(&u);
                        d.push(0x41);
                        d
                    }
                };
                if end == 4 && l > 2 {
                    // the only NUL right before the last unit
                    u[l - 2] = 0;
                    d = le(&u);
                    d.push(0x41);
                }
                let lay: Vec<(Dat, u32)> = vec![
                    (Dat::Cell(d.clone(), 0), if d.len() > SEG { 3 } else { 5 }),
                    (Dat::Big { data: d.clone(), surplus: end % 2, slack: 0 }, 5),
                ];
                for (dat, minor) in lay {
                    if matches!(dat, Dat::Big { .. }) && d.len() <= SEG {
                        continue;
                    }
                    let mut b = B::quiet();
                    let o = b.key(&Key::l("V").vals(vec![Val::new(Nm::l("b"), ty, dat)]), 0);
                    let bytes = b.finish_tight(o, minor).bytes;
                    with_values(c, &bytes, |c, m, v, mv| text_only(c, &bytes, m, v, mv, ty));
                }
            }
        },
    )
}

/// Every text length up to `max`, ended by the data size, by an odd byte or by a NUL, in one cell
/// and in segments. One hive per kind; the size and the NUL are moved in place.
pub fn strings_lengths(name: &'static str, ty: u32, max: usize) -> Drv {
    const CH: usize = 16;
    let n = max.div_ceil(CH);
    Drv::new(
        name,
        format!("every text length 0..={} (the end marked by the data size, an odd byte, or a NUL with text behind it), narrow, wide and surrogate text, in one cell and in segments", n * CH - 1),
        n as u64,
        move |idx, c| {
            // long ones first
            let lo = (n - 1 - idx as usize) * CH;
            let hi = lo + CH - 1;
            c.sample(|| format!("{lo}..={hi} units"));
            for kind in 0..3 {
                let u: Vec<u16> = (0..hi + 4)
                    .map(|i| match kind {
                        0 => 0x61 + (i % 23) as u16,
                        1 => [0xD83D, 0xDE00][i % 2],
                        _ => 0x3042 + (i % 61) as u16,
                    })
                    .collect();
                let d = le(&u);
                for big in [false, true] {
                    if big && 2 * lo <= SEG {
                        continue;
                    }
                    let mut b = B::quiet();
                    let root = b.nk(&Key::l("R"), 0);
                    let dat = if big { Dat::Big { data: d.clone(), surplus: 0, slack: 0 } } else { Dat::Cell(d.clone(), 0) };
                    let v = b.val(&Val::new(Nm::l("t"), ty, dat));
                    let l = b.vlist(&[v], 0);
                    b.set_vals(root, l, 1);
                    let mut bytes = b.finish_tight(root, if big { 5 } else { 3 }).bytes;
                    let at = v as usize + 4 + BASE + 4;
                    let first = bytes.windows(8).position(|w| w == &d[..8]).unwrap();
                    for len in lo..=hi {
                        for odd in 0..2 {
                            bytes[at..at + 4].copy_from_slice(&((2 * len + odd) as u32).to_le_bytes());
                            with_values(c, &bytes, |c, m, v, mv| text_only(c, &bytes, m, v, mv, ty));
                        }
                        if !big {
                            // a NUL behind `len` units, more text behind that
                            bytes[at..at + 4].copy_from_slice(&((2 * len + 6) as u32).to_le_bytes());
                            let p = first + 2 * len;
                            let old = [bytes[p], bytes[p + 1]];
                            bytes[p..p + 2].copy_from_slice(&[0, 0]);
                            with_values(c, &bytes, |c, m, v, mv| text_only(c, &bytes, m, v, mv, ty));
                            bytes[p..p + 2].copy_from_slice(&old);
                        }
                    }
                }
            }
        },
    )
}

/// Every short text over units that texts give a meaning to: blanks, line ends, per cent signs,
/// quotes, combining marks, joiners, selectors.
pub fn strings_words(name: &'static str, ty: u32, len: u32) -> Drv {
    const W: [u16; 16] =
        [0x61, 0x65, 0x20, 0x0D, 0x0A, 0x09, 0x25, 0x22, 0x5C, 0x30, 0x301, 0x1112, 0x1161, 0x200D, 0xFE0F, 0];
    let k = W.len() as u64;
    let n: u64 = k.pow(len - 2);
    Drv::new(
        name,
        format!("every text of {len} units over {W:x?} (and, the last being NUL, every shorter one), in a cell"),
        n,
        move |idx, c| {
            let lead: Vec<u16> = (0..len - 2).map(|i| W[(idx / k.pow(i) % k) as usize]).collect();
            c.sample(|| format!("units {lead:x?}.."));
            let mut vals = vec![];
            for a in W {
                for z in W {
                    let mut u = lead.clone();
                    u.extend([a, z]);
                    vals.push(Val::new(Nm::l("w"), ty, Dat::Cell(le(&u), 0)));
                }
            }
            let mut b = B::quiet();
            let o = b.key(&Key::l("V").vals(vals), 0);
            let bytes = b.finish_tight(o, 5).bytes;
            with_values(c, &bytes, |c, m, v, mv| text_only(c, &bytes, m, v, mv, ty));
        },
    )
    .chunk(8)
}

/// Every ordered pair of code units somewhere in a text: one text per unit, in which that unit
/// alternates with every greater one (in both directions, as each stands between two of it).
pub fn strings_pairs(name: &'static str, ty: u32, from: u32) -> Drv {
    Drv::new(
        name,
        format!("every pair of code units {from:#x}..=0xFFFF next to each other in both orders, inside long texts in a cell"),
        (0x10000 - from as u64).div_ceil(8),
        move |idx, c| {
            c.sample(|| format!("units {:#x}.. alternating with each greater one", from + idx as u32 * 8));
            for u in (0..8).map(|l| from + idx as u32 * 8 + l).filter(|u| *u <= 0xFFFF) {
                let mut t = vec![0x78u16];
                for w in u.max(1)..=0xFFFF {
                    t.extend([u as u16, w as u16]);
                }
                t.push(u as u16);
                let mut b = B::quiet();
                let o = b.key(&Key::l("V").vals(vec![Val::new(Nm::l("p"), ty, Dat::Cell(le(&t), 0))]), 0);
                let bytes = b.finish_tight(o, 3).bytes;
                with_values(c, &bytes, |c, m, v, mv| text_only(c, &bytes, m, v, mv, ty));
            }
        },
    )
}

/// Texts of every length up to 1100 (and some longer) that start or end in one, two or three
/// units with a meaning.
pub fn strings_ends(name: &'static str, ty: u32, tier: Tier) -> Drv {
    const W: [u16; 12] = [0x20, 0x0D, 0x0A, 0x09, 0x25, 0x22, 0x5C, 0x30, 0x3B, 0xA0, 0xFEFF, 0xFFFD];
    let mut ls: Vec<usize> = (3..=if tier == Tier::Quick { 1100 } else { 4200 }).collect();
    for p in 11..=16 {
        ls.extend((1usize << p) - 2..=(1 << p) + 2);
    }
    for k in 1..=4 {
        ls.extend(k * SEG / 2 - 2..=k * SEG / 2 + 2);
    }
    ls.sort();
    ls.dedup();
    let n = ls.len() as u64;
    Drv::new(
        name,
        format!("texts of {n} lengths from 3 to {}, with one, two or three units of {W:x?} in front or at the end (every pair of them last), in a cell and in segments", ls[ls.len() - 1]),
        n,
        move |idx, c| {
            let l = ls[ls.len() - 1 - idx as usize];
            c.sample(|| format!("{l} units"));
            let mut vals = vec![];
            let mut add = |u: &[u16]| {
                let d = le(u);
                if d.len() > SEG {
                    vals.push(Val::new(Nm::l("b"), ty, Dat::Big { data: d, surplus: 0, slack: 0 }));
                } else {
                    vals.push(Val::new(Nm::l("c"), ty, Dat::Cell(d, 0)));
                }
            };
            for w in W {
                for r in 1..=3 {
                    let mut u = vec![0x61u16; l];
                    u[..r].fill(w);
                    add(&u);
                }
                let mut u = vec![0x61u16; l];
                u[l - 3..].fill(w);
                add(&u);
                for x in W.into_iter().chain([0x61]) {
                    let mut u = vec![0x61u16; l];
                    u[l - 1] = w;
                    u[l - 2] = x;
                    add(&u);
                }
            }
            // a blank first and last, and nothing else
            add(&[&[0x22][..], &vec![0x62; l - 2], &[0x22]].concat());
            add(&vec![0x20; l]);
            let mut b = B::quiet();
            let o = b.key(&Key::l("V").vals(vals), 0);
            let bytes = b.finish_tight(o, 5).bytes;
            with_values(c, &bytes, |c, m, v, mv| text_only(c, &bytes, m, v, mv, ty));
        },
    )
}

/// Every number of values, in place: one list of which the first n count.
pub fn every_count(name: &'static str, tier: Tier) -> Drv {
    const CH: usize = 512;
    let (top, dense): (usize, usize) = if tier == Tier::Quick { (70_000, 61) } else { (140_000, 7) };
    let blocks = (top + 1).div_ceil(CH);
    let l: Arc<std::sync::OnceLock<(Vec<u8>, usize, Vec<usize>)>> = Default::default();
    Drv::new(
        name,
        format!("every value list of 1..={top} entries: count, size_hint, last, nth around the end, the first, middle and last value and the one behind the counted ones looked up; all of 1..=3000 and each {dense}th longer one enumerated"),
        blocks as u64,
        move |idx, c| {
            let blk = blocks - 1 - idx as usize;
            c.sample(|| format!("counts {}..", blk * CH));
            let (img, at, recs) = l.get_or_init(|| {
                let mut b = B::quiet();
                let root = b.nk(&Key::l("R"), 0);
                let offs: Vec<u32> = (0..=top).map(|i| b.val(&Val::new(Nm::l(&format!("v{i}")), 4, Dat::Inline((i as u32).to_le_bytes().to_vec())))).collect();
                let l = b.vlist(&offs, 0);
                b.set_vals(root, l, 0);
                (b.finish_tight(root, 5).bytes, root as usize + 4 + 36 + BASE, offs.iter().map(|o| *o as usize + 4 + BASE).collect())
            });
            let mut img = img.clone();
            for n in (blk * CH).max(1)..((blk + 1) * CH).min(top + 1) {
                img[*at..*at + 4].copy_from_slice(&(n as u32).to_le_bytes());
                let img = &img[..];
                let h = Hive::without_validation(img).unwrap();
                let Some(Ok(k)) = c.call(T_ROOT, "root", 36, img, || h.root_key_node()) else { return };
                c.states += 1;
                let full = n <= 3000 || n % dense == 0;
                let id = |x: Option<nt_hive::Result<Kv>>| x.map(|x| x.ok().and_then(|x| val_id(img, &x)));
                let r = c.call(T_VALS, "values", 36, img, || {
                    let Some(Ok(it)) = k.values() else { return None };
                    let bad = full.then(|| {
                        let mut m = 0;
                        let mut bad = None;
                        for x in it.clone().take(n + 2) {
                            if bad.is_none() && id(Some(x)).flatten() != recs[..n].get(m).copied() {
                                bad = Some(m);
                            }
                            m += 1;
                        }
                        (m, bad)
                    });
                    Some((bad, it.clone().count(), it.size_hint(), id(it.clone().last()), id(it.clone().nth(n - 1)), it.clone().nth(n).is_some(), id(it.clone().nth(n / 2))))
                });
                let Some(r) = r else { return };
                let at = |i: usize| Some(Some(recs[i]));
                let Some((bad, cnt, sh, last, nth, behind, mid)) = r else {
                    c.report(T_VALS, format!("{n} values: no enumeration"), None);
                    return;
                };
                if let Some((m, b)) = bad {
                    c.transitions += m as u64;
                    if m != n || b.is_some() {
                        c.report(T_VALS, format!("{n} values: {m} items, first wrong one {b:?}"), None);
                        return;
                    }
                }
                if cnt != n || sh != (n, Some(n)) || last != at(n - 1) || nth != at(n - 1) || behind || mid != at(n / 2) {
                    c.report(&["C08", "C15"], format!("{n} values: count {cnt}, size_hint {sh:?}, last {last:x?}, nth(n-1) {nth:x?}, nth(n/2) {mid:x?}, one behind the end: {behind}"), None);
                    return;
                }
                // a lookup is a walk over the list: few of the long ones
                let probes: &[usize] = if n <= 3000 { &[0, n / 3, n / 2, n - 1, n, n + 1] } else if full { &[n - 1, n] } else { &[] };
                for i in probes {
                    let p = format!("V{i}");
                    let Some(r) = c.call(T_VAL, "value", 36, img, || id(k.value(&p))) else { return };
                    if r != if *i < n { at(*i) } else { None } {
                        c.report(T_VAL, format!("{n} values: looking up {p:?} gives {r:x?}"), None);
                        return;
                    }
                }
            }
        },
    )
}

/// Every data size up to `top`, in place, and every number of segments in the list.
pub fn every_size(name: &'static str, top: usize) -> Drv {
    const CH: usize = 256;
    let blocks = (top + 1).div_ceil(CH);
    let big: Arc<std::sync::OnceLock<(Vec<u8>, usize, usize)>> = Default::default();
    Drv::new(
        name,
        format!("every data size 0..={top} in one cell (old hive; up to 16344 bytes also in a new one) and in segments; every number of segments 2..=65535 with room for it, sizes at the limit and just above"),
        blocks as u64 * 2 + 128,
        move |idx, c| {
            if idx >= 2 * blocks as u64 {
                // number of segments
                let blk = 127 - (idx as usize - 2 * blocks);
                c.sample(|| format!("{}.. segments", blk * 512));
                let (img, seg, size) = big.get_or_init(|| {
                    let mut b = B::quiet();
                    let root = b.nk(&Key::l("R"), 0);
                    let segs: Vec<u32> = (0..3)
                        .map(|j| {
                            let o = b.alloc(SEG, "seg");
                            b.put(o as usize + 4, &pattern(SEG, j));
                            o
                        })
                        .collect();
                    let offs: Vec<u32> = (0..65535usize).map(|i| segs[i * i % 3]).collect();
                    let d = b.db(&offs, 65535, 0);
                    let v = b.val(&Val::new(Nm::l("d"), 3, Dat::Raw(0, d)));
                    let l = b.vlist(&[v], 0);
                    b.set_vals(root, l, 1);
                    let img = b.finish_tight(root, 5).bytes;
                    (img, d as usize + 4 + BASE + 2, v as usize + 4 + BASE + 4)
                });
                let mut img = img.clone();
                for n in (blk * 512).max(2)..(blk + 1) * 512 {
                    img[*seg..*seg + 2].copy_from_slice(&(n as u16).to_le_bytes());
                    for sz in [n * SEG, (n - 1) * SEG + 1, n * SEG + 1] {
                        img[*size..*size + 4].copy_from_slice(&(sz as u32).to_le_bytes());
                        with_values(c, &img, |c, _, v, mv| {
                            let r = c.call(T_DATA, "data", mv.p, &img, || match v.data() {
                                Ok(KeyValueData::Big(it)) => {
                                    let last = it.clone().last().and_then(|s| s.ok()).map(|s| s.len());
                                    Some((it.clone().count(), it.size_hint().1, last, it.clone().nth(n - 1).is_some(), it.clone().nth(n).is_some()))
                                }
                                _ => None,
                            });
                            let want = (sz <= n * SEG).then(|| (n, Some(n), Some(if sz == n * SEG { SEG } else { 1 }), true, false));
                            if r.is_some_and(|r| r != want) {
                                c.report(T_DATA, format!("{n} segments, {sz} bytes: count, size_hint, last, nth(n-1), nth(n) {r:?} expected {want:?}"), None);
                            }
                        });
                    }
                }
                return;
            }
            let in_cell = idx % 2 == 0;
            let lo = (blocks - 1 - idx as usize / 2) * CH;
            let hi = (lo + CH - 1).min(top);
            c.sample(|| format!("sizes {lo}..={hi}"));
            let d = pattern(hi.max(8), 5);
            for minor in [3u32, 5] {
                if (in_cell && minor == 5 && lo > SEG) || (!in_cell && (minor == 3 || hi <= SEG)) {
                    continue;
                }
                let mut b = B::quiet();
                let root = b.nk(&Key::l("R"), 0);
                let dat = if in_cell { Dat::Cell(d.clone(), 0) } else { Dat::Big { data: d.clone(), surplus: 0, slack: 0 } };
                let v = b.val(&Val::new(Nm::l("d"), 3, dat));
                let l = b.vlist(&[v], 0);
                b.set_vals(root, l, 1);
                let mut img = b.finish_tight(root, minor).bytes;
                let at = v as usize + 4 + BASE + 4;
                for sz in lo..=hi {
                    if (in_cell && minor == 5 && sz > SEG) || (!in_cell && sz <= SEG) {
                        continue;
                    }
                    img[at..at + 4].copy_from_slice(&(sz as u32).to_le_bytes());
                    with_values(c, &img, |c, m, v, mv| {
                        if v.data_size() as usize != sz {
                            c.report(T_DATA, format!("data_size {} of {sz} bytes", v.data_size()), None);
                        }
                        data(c, &img, m, v, mv, false);
                    });
                }
            }
        },
    )
}
