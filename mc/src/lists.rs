//! Subkey list families: structures, damage, name sets, large lists, search cost, paths.

use crate::engine::*;
use crate::img::*;
use crate::model::*;
use crate::walk::*;
use nt_hive::{Hive, NtHiveError as E};
use std::sync::Arc;

/// How the entries of one key are stored.
#[derive(Clone, Debug, PartialEq)]
pub enum St {
    NoList,
    Flat(Lt),
    Ri(Vec<(Lt, usize)>),
}

/// All storage structures for n entries.
pub fn structures(n: usize, max_comp: usize) -> Vec<St> {
    let mut v = vec![];
    if n == 0 {
        v.push(St::NoList);
        v.push(St::Ri(vec![]));
    }
    for lt in LTS {
        v.push(St::Flat(lt));
    }
    if n == 0 {
        return v;
    }
    let masks: Vec<usize> = if n <= max_comp {
        (0..1usize << (n - 1)).collect()
    } else {
        // halves, pairs, singletons, one leaf, one + rest, rest + one
        let full = (1usize << (n - 1)) - 1;
        vec![
            0,
            full,
            1 << (n / 2),
            1,
            1 << (n - 2),
            (0..n - 1).filter(|i| i % 2 == 1).map(|i| 1 << i).sum(),
            (0..n - 1).filter(|i| i % 3 == 2).map(|i| 1 << i).sum(),
        ]
    };
    for m in masks {
        let mut parts = vec![];
        let mut l = 1;
        for i in 0..n - 1 {
            if m >> i & 1 == 1 {
                parts.push(l);
                l = 1;
            } else {
                l += 1;
            }
        }
        parts.push(l);
        let k = parts.len();
        if k <= 3 && n <= max_comp {
            for t in 0..3usize.pow(k as u32) {
                let mut t = t;
                v.push(St::Ri(
                    parts
                        .iter()
                        .map(|p| {
                            let lt = LTS[t % 3];
                            t /= 3;
                            (lt, *p)
                        })
                        .collect(),
                ));
            }
        } else {
            for r in 0..3 {
                v.push(St::Ri(
                    parts.iter().enumerate().map(|(i, p)| (LTS[(i + r) % 3], *p)).collect(),
                ));
            }
        }
    }
    v
}

pub fn store(st: &St, ents: Vec<Ent>) -> Subs {
    match st {
        St::NoList => Subs::None,
        St::Flat(lt) => Subs::Leaf(*lt, ents),
        St::Ri(p) => {
            let mut it = ents.into_iter();
            Subs::Root(
                p.iter()
                    .map(|(lt, n)| SubList::Leaf(*lt, it.by_ref().take(*n).collect()))
                    .collect(),
            )
        }
    }
}

pub fn stname(st: &St) -> String {
    match st {
        St::NoList => "no list".into(),
        St::Flat(l) => format!("{l:?}"),
        St::Ri(p) => format!(
            "ri[{}]",
            p.iter().map(|(l, n)| format!("{l:?}{n}")).collect::<Vec<_>>().join(",")
        ),
    }
}

/// References that must not be accepted as keys.
pub fn bad_keys(b: &mut B) -> Vec<u32> {
    let free = b.free_cell(84);
    b.put(free as usize + 4, b"nk");
    let vk = b.val(&Val::new(Nm::l("abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefgh"), 1, Dat::Inline(vec![])));
    let short = b.alloc(68, "short");
    b.put(short as usize + 4, b"nk");
    let odd = b.alloc(92, "odd");
    b.put(odd as usize + 4, b"nk");
    b.p32(odd as usize, (-100i32) as u32);
    vec![NONE, free, vk, short, odd, 0x7FFF_FFF8]
}

/// References that must not be accepted as sub-lists of an index root.
pub fn bad_lists(b: &mut B, good_key: u32) -> Vec<u32> {
    let k = [(good_key, *b"bad ", [0; 4])];
    let empty = b.leaf(Lt::Lf, &[], 0);
    let sig = b.leaf(Lt::Lh, &k, 0);
    b.put(sig as usize + 4, b"lx");
    let inner = b.leaf(Lt::Li, &k, 0);
    let nested = b.ri(&[inner], 0);
    let long = b.leaf(Lt::Lf, &k, 0);
    b.p16(long as usize + 6, 3);
    let free = b.leaf(Lt::Li, &k, 0);
    let sz = u32::from_le_bytes(b.buf[free as usize..free as usize + 4].try_into().unwrap());
    b.p32(free as usize, sz.wrapping_neg());
    vec![NONE, empty, sig, nested, long, free, good_key]
}

fn cfg_enum() -> Cfg {
    Cfg {
        iters: false,
        typed: false,
        names: false,
        clear: false,
        paths: vec![],
        extra_probes: vec![],
        ..Cfg::full()
    }
}

/// Every structure of every small size; all entries good.
pub fn shapes(name: &'static str, max: usize, cfg: Cfg) -> Drv {
    let mut cases = vec![];
    for n in 0..=max {
        for st in structures(n, max) {
            cases.push((n, st));
        }
    }
    let nn = cases.len() as u64;
    Drv::new(
        name,
        format!("every subkey list of 0..={max} keys: flat in 3 formats, every split over a two-level index, formats mixed ({nn} lists), as root list and one level down"),
        nn,
        move |idx, c| {
            let (n, st) = &cases[idx as usize];
            c.sample(|| format!("{n} keys as {}", stname(st)));
            for down in 0..2 {
                let ents = |tag: &str| -> Vec<Ent> {
                    (0..*n)
                        .map(|i| {
                            Ent::K(Key::l(&format!("{tag}{}", (b'a' + i as u8) as char)).vol(i as u32 + 1))
                        })
                        .collect()
                };
                let mut root = Key::l("R").vol(77);
                root.subs = store(st, ents("k"));
                if down == 1 {
                    let mut top = Key::l("T").vol(3);
                    top.subs = Subs::Leaf(Lt::Lh, vec![Ent::K(root), Ent::K(Key::l("S"))]);
                    root = top;
                }
                for tight in 0..2 {
                    let img = if tight == 1 { build_tight(&root, 5) } else { build(&root, 5) };
                    walk(c, &img.bytes, &cfg);
                }
            }
        },
    )
}

/// Every placement of damaged entries.
pub fn damaged_entries(name: &'static str, max: usize, cfg: Cfg) -> Drv {
    let mut cases = vec![];
    for n in 1..=max {
        for st in structures(n, max) {
            cases.push((n, st));
        }
    }
    let nn = cases.len() as u64;
    Drv::new(
        name,
        format!("every list structure of 1..={max} entries x every entry good or damaged in one of 6 ways"),
        nn,
        move |idx, c| {
            let (n, st) = &cases[idx as usize];
            c.sample(|| format!("{n} entries as {}, 7^{n} damage placements", stname(st)));
            let mut i = 0;
            let tot = 7usize.pow(*n as u32);
            while i < tot {
                let mut b = B::quiet();
                let bad = bad_keys(&mut b);
                let mut x = i;
                let ents = (0..*n)
                    .map(|j| {
                        let k = x % 7;
                        x /= 7;
                        if k == 0 {
                            Ent::K(Key::l(&format!("k{}", (b'a' + j as u8) as char)).vol(9))
                        } else {
                            Ent::Off(bad[k - 1])
                        }
                    })
                    .collect();
                let mut root = Key::l("R").vol(1);
                root.subs = store(st, ents);
                let o = b.key(&root, 0);
                let img = b.finish_tight(o, 5);
                walk(c, &img.bytes, &cfg);
                i += 1;
            }
        },
    )
}

/// Every placement of damaged sub-lists in a two-level index.
pub fn damaged_sublists(name: &'static str, max: usize, cfg: Cfg) -> Drv {
    let n: u64 = (1..=max).map(|m| 9u64.pow(m as u32)).sum();
    Drv::new(
        name,
        format!("two-level index of 1..={max} sub-lists, each a leaf of 1 or 2 keys or damaged in one of 7 ways, all combinations"),
        n,
        move |idx, c| {
            let mut i = idx;
            let mut m = 1;
            while i >= 9u64.pow(m as u32) {
                i -= 9u64.pow(m as u32);
                m += 1;
            }
            c.sample(|| format!("{m} sub-lists, combination {i}"));
            let mut b = B::quiet();
            let hidden = b.nk(&Key::l("zzhidden"), 0);
            let bad = bad_lists(&mut b, hidden);
            let mut subs = vec![];
            let mut kn = 0;
            for j in 0..m {
                let k = (i % 9) as usize;
                i /= 9;
                if k < 2 {
                    let mut e = vec![];
                    for _ in 0..=k {
                        e.push(Ent::K(Key::l(&format!("k{}", (b'a' + kn) as char)).vol(4)));
                        kn += 1;
                    }
                    subs.push(SubList::Leaf(LTS[j % 3], e));
                } else {
                    subs.push(SubList::Off(bad[k - 2]));
                }
            }
            let mut root = Key::l("R").vol(1);
            root.subs = Subs::Root(subs);
            let o = b.key(&root, 0);
            let img = b.finish_tight(o, 5);
            walk(c, &img.bytes, &cfg);
        },
    )
    .chunk(8)
}

/// Every sequence over few names: unsorted and duplicate lists.
pub fn unsorted(name: &'static str, max: usize) -> Drv {
    let names = ["a", "B", "A", "c", "\u{e4}"];
    let n: u64 = (0..=max).map(|m| 5u64.pow(m as u32)).sum();
    let mut cfg = cfg_enum();
    cfg.extra_probes = ["", "a", "b", "C", "\u{c4}", "\u{e4}", "zz"].iter().map(|s| s.to_string()).collect();
    Drv::new(
        name,
        format!("every sequence of up to {max} keys over 5 names (unsorted, duplicates), in every structure"),
        n,
        move |idx, c| {
            let mut i = idx;
            let mut m = 0;
            while i >= 5u64.pow(m as u32) {
                i -= 5u64.pow(m as u32);
                m += 1;
            }
            let seq: Vec<&str> = (0..m)
                .map(|_| {
                    let x = names[(i % 5) as usize];
                    i /= 5;
                    x
                })
                .collect();
            c.sample(|| format!("keys {seq:?}"));
            for st in structures(m, 4) {
                let ents = seq.iter().map(|s| Ent::K(Key::l(s))).collect();
                let mut root = Key::l("R");
                root.subs = store(&st, ents);
                let img = { let mut b = B::quiet(); let o = b.key(&root, 0); b.finish_tight(o, 5) };
                walk(c, &img.bytes, &cfg);
            }
        },
    )
}

/// Names with every kind of comparison hazard, sorted as the registry sorts.
pub fn pool() -> Vec<Vec<u16>> {
    let mut v: Vec<Vec<u16>> = [
        "", "I", "ia", "S", "_", "[", "Z", "zz", "\u{e9}", "\u{df}", "\u{ff}", "\u{b5}", "\u{1c6}", "\u{10428}",
        "\u{e000}", "a\u{1}",
    ]
    .iter()
    .map(|s| str_units(s))
    .collect();
    v.sort_by(|a, b| cmp_units(a, b));
    v
}

fn lower_of(u: u16) -> u16 {
    // any other unit with the same uppercase
    use std::sync::OnceLock;
    static T: OnceLock<Vec<u16>> = OnceLock::new();
    T.get_or_init(|| {
        let t = upcase_table();
        let mut r: Vec<u16> = (0..=65535).collect();
        for u in (0..65536usize).rev() {
            if t[u] as usize != u {
                r[t[u] as usize] = u as u16;
            }
        }
        let mut out = r.clone();
        for u in 0..65536usize {
            if t[u] as usize != u {
                out[u] = t[u];
                // prefer a third member when there is one
                for w in 0..65536usize {
                    if w > 0x24F {
                        break;
                    }
                    if t[w] == t[u] && w != u && w != t[u] as usize {
                        out[u] = w as u16;
                    }
                }
            }
        }
        out
    })[u as usize]
}

pub fn variants(u: &[u16]) -> Vec<String> {
    let mut v: Vec<Vec<u16>> = vec![u.to_vec()];
    v.push(u.iter().map(|x| upcase(*x)).collect());
    v.push(u.iter().map(|x| lower_of(*x)).collect());
    v.push(u.iter().enumerate().map(|(i, x)| if i % 2 == 0 { lower_of(*x) } else { upcase(*x) }).collect());
    let mut a = u.to_vec();
    a.push(0);
    v.push(a);
    let mut a = u.to_vec();
    a.push(0xFFFF);
    v.push(a);
    if let Some((l, r)) = u.split_last() {
        v.push(r.to_vec());
        let mut a = r.to_vec();
        a.push(l.wrapping_add(1));
        v.push(a.clone());
        *a.last_mut().unwrap() = l.wrapping_sub(1);
        v.push(a);
    }
    let mut out: Vec<String> = v.iter().map(|u| decode(u)).filter(|x| !x.1).map(|x| x.0).collect();
    out.sort();
    out.dedup();
    out
}

pub fn nm(u: &[u16], latin: bool) -> Nm {
    if latin && u.iter().all(|x| *x < 256) {
        Nm::L(u.iter().map(|x| *x as u8).collect())
    } else {
        Nm::U(u.to_vec())
    }
}

/// Every subset of a pool of awkward names, in several structures and encodings, probed with
/// every variant of every pool name.
pub fn name_sets(name: &'static str, pool_n: usize, comp: usize) -> Drv {
    let p: Vec<Vec<u16>> = pool().into_iter().take(pool_n).collect();
    let mut probes: Vec<String> = p.iter().flat_map(|u| variants(u)).collect();
    probes.push("x".repeat(300));
    probes.sort();
    probes.dedup();
    let np = probes.len();
    let mut cfg = cfg_enum();
    cfg.extra_probes = probes;
    cfg.max_keys = 1;
    Drv::new(
        name,
        format!("all 2^{pool_n} sorted sets of awkward names (case pairs, prefixes, non-ASCII, surrogates) x structures x encodings, {np} probes each"),
        1 << pool_n,
        move |idx, c| {
            let set: Vec<&Vec<u16>> = (0..pool_n).filter(|i| idx >> i & 1 == 1).map(|i| &p[i]).collect();
            c.sample(|| format!("names {:?}", set.iter().map(|u| decode(u).0).collect::<Vec<_>>()));
            for (si, st) in structures(set.len(), comp).iter().enumerate() {
                let enc = (si + idx as usize) % 3;
                let ents = set
                    .iter()
                    .enumerate()
                    .map(|(i, u)| Ent::K(Key::new(nm(u, enc == 0 || (enc == 1 && i % 2 == 0)))))
                    .collect();
                let mut root = Key::l("R");
                root.subs = store(st, ents);
                let mut b = B::quiet();
                let o = b.key(&root, 0);
                let img = b.finish_tight(o, 5);
                walk(c, &img.bytes, &cfg);
            }
        },
    )
    .chunk(4)
}

/// Case-insensitive lookups over every unit: a key per unit of an alphabet slice.
pub fn all_units(name: &'static str) -> Drv {
    // 256 units per case: keys for every distinct uppercase class in the slice, probe every unit.
    Drv::new(
        name,
        "for every BMP unit (surrogates excluded) a key and a value with that one-unit name, looked up by every unit with the same uppercase",
        256,
        move |idx, c| {
            c.sample(|| format!("units {:#x}..{:#x}", idx * 256, idx * 256 + 255));
            let mut classes: Vec<u16> = (0..256u32)
                .map(|i| upcase((idx as u32 * 256 + i) as u16))
                .collect();
            classes.sort();
            classes.dedup();
            let members: Vec<Vec<u16>> = classes
                .iter()
                .map(|k| (0..=65535u16).filter(|u| upcase(*u) == *k && !(0xD800..0xE000).contains(u)).collect())
                .collect();
            for rep in 0..2 {
                let keys: Vec<u16> = classes
                    .iter()
                    .zip(&members)
                    .map(|(k, m)| if rep == 0 || m.is_empty() { *k } else { *m.last().unwrap() })
                    .collect();
                let ents: Vec<Ent> = keys.iter().map(|u| Ent::K(Key::new(nm(&[*u], true)))).collect();
                let mut root = Key::l("R").vals(keys.iter().map(|u| Val::new(nm(&[*u], rep == 0), 4, Dat::Inline(vec![0; 4]))).collect());
                root.subs = Subs::Leaf(LTS[rep], ents);
                let mut b = B::quiet();
                let o = b.key(&root, 0);
                let img = b.finish_tight(o, 5);
                let m = Model::new(&img.bytes);
                let h = Hive::without_validation(&img.bytes[..]).unwrap();
                let Ok(Some(k)) = quiet(|| h.root_key_node().ok()) else { return };
                let mk = m.root().unwrap();
                let subs = m.subkeys(mk).unwrap().unwrap();
                for mem in &members {
                    for u in mem {
                        let (p, _) = decode(&[*u]);
                        subkey(c, &img.bytes, &m, &k, mk, &subs, &p);
                        value_lookup(c, &img.bytes, &m, &k, mk, &p);
                    }
                }
                c.states += 1;
            }
        },
    )
}

// ---------------------------------------------------------------------------------------------
// Large lists

pub fn big_name(i: usize) -> String {
    // sorted, mixed case, fixed width
    let mut s = String::new();
    let mut x = i;
    let mut d = vec![];
    for _ in 0..4 {
        d.push(x % 24);
        x /= 24;
    }
    for (j, d) in d.iter().rev().enumerate() {
        let ch = (b'a' + *d as u8) as char;
        s.push(if (i + j) % 3 == 0 { ch.to_ascii_uppercase() } else { ch });
    }
    s
}

pub struct BigList {
    pub bytes: Vec<u8>,
    /// absolute offset of the reference to entry i
    pub refs: Vec<usize>,
    /// absolute position of the key record i
    pub recs: Vec<usize>,
    pub ri_refs: Vec<usize>,
    pub list_cells: Vec<usize>,
}

/// n sorted keys; chunk == 0: flat list, else a two-level index with leaves of `chunk` entries.
pub fn big_list(n: usize, lt: Option<Lt>, chunk: usize) -> BigList {
    let mut b = B::quiet();
    let root = b.nk(&Key::l("R"), 0);
    let mut offs = vec![];
    for i in 0..n {
        let mut k = Key::l(&big_name(2 * i + 1));
        k.volatile = i as u32;
        offs.push(b.nk(&k, root));
    }
    let items: Vec<(u32, [u8; 4], [u8; 4])> = offs.iter().map(|o| (*o, *b"hint", [0; 4])).collect();
    let mut refs = vec![];
    let mut ri_refs = vec![];
    let mut list_cells = vec![];
    let top;
    if chunk == 0 {
        let lt = lt.unwrap();
        top = b.leaf(lt, &items, 0);
        for i in 0..n {
            refs.push(BASE + top as usize + 8 + i * lt.item());
        }
    } else {
        let mut ls = vec![];
        for (j, ch) in items.chunks(chunk).enumerate() {
            let lt = lt.unwrap_or(LTS[j % 3]);
            let l = b.leaf(lt, ch, 0);
            list_cells.push(BASE + l as usize);
            for i in 0..ch.len() {
                refs.push(BASE + l as usize + 8 + i * lt.item());
            }
            ls.push(l);
        }
        top = b.ri(&ls, 0);
        for i in 0..ls.len() {
            ri_refs.push(BASE + top as usize + 8 + 4 * i);
        }
    }
    b.set_subs(root, top, n as u32);
    let img = b.finish_tight(root, 5);
    BigList {
        bytes: img.bytes,
        refs,
        recs: offs.iter().map(|o| *o as usize + 4 + BASE).collect(),
        ri_refs,
        list_cells,
    }
}

fn big_shapes(tier: Tier) -> Vec<(usize, Option<Lt>, usize)> {
    let mut v = vec![];
    let ns: &[usize] = if tier == Tier::Quick {
        &[100, 127, 128, 129, 255, 256, 257, 511, 1024, 4097, 32768, 65535]
    } else {
        &[100, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 32767, 32768, 32769, 50000, 65534, 65535]
    };
    for n in ns {
        for lt in LTS {
            v.push((*n, Some(lt), 0));
        }
        for ch in [1usize, 2, 255, 256, 511, 32768, 65535] {
            if ch <= *n && (*n + ch - 1) / ch <= 65535 {
                v.push((*n, None, ch));
            }
        }
    }
    // beyond 65535 keys in total
    for ch in [2usize, 256, 511, 40000] {
        v.push((70000, None, ch));
        if tier == Tier::Thorough {
            v.push((131070, None, ch));
        }
    }
    v
}

/// Large lists: enumeration in full and lookups of every key and every gap.
pub fn large(name: &'static str, tier: Tier) -> Drv {
    let sh = big_shapes(tier);
    let n = sh.len() as u64;
    Drv::new(
        name,
        format!("{n} large lists (100..=70000 keys, every format, index leaves of 1..=65535): full enumeration, every key and every gap looked up"),
        n,
        move |idx, c| {
            let (n, lt, ch) = sh[n as usize - 1 - idx as usize];
            c.sample(|| format!("{n} keys, {lt:?}, index leaves of {ch}"));
            let l = big_list(n, lt, ch);
            let img = &l.bytes[..];
            let h = Hive::without_validation(img).unwrap();
            let Some(Ok(k)) = c.call(T_ROOT, "root", 36, img, || h.root_key_node()) else { return };
            c.states += 1;
            // enumeration
            let got = c.call(T_SUBS, "subkeys", 36, img, || {
                let mut v = vec![];
                if let Some(Ok(it)) = k.subkeys() {
                    for x in it.take(n + 2) {
                        v.push(x.ok().and_then(|x| key_id(img, &x)));
                    }
                }
                v
            });
            if let Some(got) = got {
                c.transitions += got.len() as u64;
                let bad = (0..n.max(got.len())).find(|i| got.get(*i).copied().flatten() != l.recs.get(*i).copied());
                if let Some(i) = bad {
                    c.report(T_SUBS, format!("{n} keys ({lt:?}, leaves of {ch}): item {i} of the enumeration is wrong ({} items)", got.len()), None);
                    return;
                }
            }
            // skipping
            for s in [0usize, 1, n / 2, n - 1, n, n + 1] {
                let r = c.call(T_ITER, "nth", 36, img, || {
                    let mut it = k.subkeys().unwrap().ok().unwrap();
                    it.nth(s).map(|x| x.ok().and_then(|x| key_id(img, &x)))
                });
                if let Some(r) = r {
                    let want = l.recs.get(s).map(|x| Some(*x));
                    if r != want {
                        c.report(T_ITER, format!("nth({s}) of {n} keys gives {r:x?} instead of {want:x?}"), None);
                    }
                }
            }
            let r = c.call(T_ITER, "count/last/size_hint", 36, img, || {
                let it = k.subkeys().unwrap().ok().unwrap();
                (it.clone().count(), it.clone().last().map(|x| x.ok().and_then(|x| key_id(img, &x))), it.size_hint())
            });
            if let Some((cnt, last, sh)) = r {
                if cnt != n || last != l.recs.last().map(|x| Some(*x)) || sh.0 > n || sh.1.map_or(false, |h| h < n) {
                    c.report(T_ITER, format!("{n} keys: count {cnt}, last {last:x?}, size_hint {sh:?}"), None);
                }
            }
            // lookups
            for i in 0..=2 * n + 1 {
                let p = big_name(i);
                let p = if i % 4 == 1 { p.to_ascii_lowercase() } else { p };
                let r = c.call(T_SUBK, "subkey", 36, img, || {
                    k.subkey(&p).map(|r| r.map(|x| key_id(img, &x)))
                });
                let Some(r) = r else { return };
                let want = if i % 2 == 1 { l.recs.get(i / 2) } else { None };
                let ok = match (&r, want) {
                    (None, None) => true,
                    (Some(Ok(Some(a))), Some(b)) => a == b,
                    _ => false,
                };
                if !ok {
                    c.report(T_SUBK, format!("{n} keys ({lt:?}, leaves of {ch}): looking up {p:?} (slot {i}) gives {r:x?} instead of {want:x?}"), None);
                    return;
                }
            }
        },
    )
}

// ---------------------------------------------------------------------------------------------
// C06: what a lookup depends on

fn ceil_log2p1(n: usize) -> usize {
    (usize::BITS - n.leading_zeros()) as usize
}

/// Poisons every entry with its own dangling reference; the error tells which entry the search
/// needs; repair only that one and repeat.  The number of repairs is what the lookup depends on.
pub fn search_cost(name: &'static str, tier: Tier) -> Drv {
    let mut sh: Vec<(usize, Option<Lt>, usize)> = vec![];
    let top = if tier == Tier::Quick { 100 } else { 600 };
    for n in 1..=top {
        for lt in LTS {
            sh.push((n, Some(lt), 0));
        }
        for ch in [1, 2, 3, 5, 8, 16, 40] {
            if ch <= n {
                sh.push((n, None, ch));
            }
        }
    }
    for (n, lt, ch) in big_shapes(tier) {
        sh.push((n, lt, ch));
    }
    sh.reverse();
    let n = sh.len() as u64;
    Drv::new(
        name,
        format!("every list size 1..={top} plus large ones up to 70000 ({n} lists): for every key and every gap, the exact set of list entries and sub-lists the lookup depends on"),
        n,
        move |idx, c| {
            let (n, lt, ch) = sh[idx as usize];
            c.sample(|| format!("{n} keys, {lt:?}, index leaves of {ch}"));
            let l = big_list(n, lt, ch);
            let clean = l.bytes.clone();
            let mut buf = l.bytes.clone();
            let far = ((buf.len() + 4095) / 4096 * 4096) as u32;
            let m = l.ri_refs.len();
            let pois = |i: usize| far + 8 * i as u32;
            let put = |b: &mut [u8], at: usize, v: u32| b[at..at + 4].copy_from_slice(&v.to_le_bytes());
            let get = |b: &[u8], at: usize| u32::from_le_bytes(b[at..at + 4].try_into().unwrap());
            for (i, r) in l.refs.iter().enumerate() {
                put(&mut buf, *r, pois(i));
            }
            for (i, r) in l.ri_refs.iter().enumerate() {
                put(&mut buf, *r, pois(n + i));
            }
            let lim_e = 2 * ceil_log2p1(n) + 4;
            let lim_l = 2 * ceil_log2p1(m) + 4;
            let step = if n > 5000 && tier == Tier::Quick { 7 } else { 1 };
            let mut i = 0;
            while i <= 2 * n {
                let p = big_name(i);
                let mut fixed: Vec<usize> = vec![];
                let (mut ne, mut nl) = (0, 0);
                let last = loop {
                    let r = {
                        let b = &buf[..];
                        c.call(&["C06"], "subkey", 36, b, || {
                            let h = Hive::without_validation(b).unwrap();
                            let k = h.root_key_node()?;
                            k.subkey(&p).transpose().map(|o| o.and_then(|x| key_id(b, &x)))
                        })
                    };
                    let Some(r) = r else { break Ok(None) };
                    match r {
                        Err(E::InvalidHeaderSize { offset, .. })
                            if offset >= far as usize + BASE && offset < far as usize + BASE + 8 * (n + m) =>
                        {
                            let j = (offset - BASE - far as usize) / 8;
                            if fixed.contains(&j) {
                                break Err(format!("entry {j} is reported as damaged although it is not"));
                            }
                            fixed.push(j);
                            let at = if j < n { l.refs[j] } else { l.ri_refs[j - n] };
                            if j < n {
                                ne += 1
                            } else {
                                nl += 1
                            }
                            put(&mut buf, at, get(&clean, at));
                            if ne > lim_e || nl > lim_l {
                                break Err(format!(
                                    "depends on more than {lim_e} entries or {lim_l} sub-lists"
                                ));
                            }
                        }
                        Ok(x) => break Ok(x),
                        Err(e) => break Err(format!("reported {e:?}")),
                    }
                };
                c.outcome((ne * 64 + nl) as u64);
                c.states += 1;
                let want = if i % 2 == 1 { l.recs.get(i / 2).copied() } else { None };
                match last {
                    Err(m) => {
                        c.report(&["C06"], format!("{n} keys ({lt:?}, leaves of {ch}), looking up {p:?}: {m}"), None);
                        return;
                    }
                    Ok(x) if x != want => {
                        c.report(
                            &["C06", "C05"],
                            format!("{n} keys ({lt:?}, leaves of {ch}), looking up {p:?}: {x:x?} instead of {want:x?} while entries it does not need are damaged"),
                            None,
                        );
                        return;
                    }
                    _ => {}
                }
                for j in fixed {
                    let at = if j < n { l.refs[j] } else { l.ri_refs[j - n] };
                    put(&mut buf, at, pois(j));
                }
                i += step;
            }
        },
    )
}

/// Damage one entry at a time, in several ways: at most `bound` entries may change the result.
pub fn poison_each(name: &'static str, max: usize) -> Drv {
    let mut sh: Vec<(usize, Option<Lt>, usize)> = vec![];
    for n in 1..=max {
        for lt in LTS {
            sh.push((n, Some(lt), 0));
        }
        for ch in [1, 2, 3, 7] {
            if ch <= n {
                sh.push((n, None, ch));
            }
        }
    }
    let n = sh.len() as u64;
    Drv::new(
        name,
        format!("every list of 1..={max} keys: each entry damaged alone in 4 ways, every key and gap looked up"),
        n,
        move |idx, c| {
            let (n, lt, ch) = sh[idx as usize];
            c.sample(|| format!("{n} keys, {lt:?}, index leaves of {ch}, each entry damaged"));
            let l = big_list(n, lt, ch);
            let lim = 2 * ceil_log2p1(n) + 4;
            let look = |c: &mut Ctx, b: &[u8], p: &str| {
                c.call(&["C06"], "subkey", 36, b, || {
                    let h = Hive::without_validation(b).unwrap();
                    let k = h.root_key_node()?;
                    k.subkey(p).transpose().map(|o| o.and_then(|x| key_id(b, &x)))
                })
            };
            for kind in 0..4 {
                let mut hit = vec![0usize; 2 * n + 1];
                for e in 0..n {
                    let mut b = l.bytes.clone();
                    match kind {
                        0 => b[l.refs[e]..l.refs[e] + 4].fill(0xFF),
                        1 => b[l.recs[e]] = b'x',
                        2 => b[l.recs[e] + 72..l.recs[e] + 74].fill(0xFF),
                        _ => {
                            // free the cell
                            let p = l.recs[e] - 4;
                            let s = i32::from_le_bytes(b[p..p + 4].try_into().unwrap());
                            b[p..p + 4].copy_from_slice(&(-s).to_le_bytes());
                        }
                    }
                    c.states += 1;
                    for i in 0..=2 * n {
                        let want = if i % 2 == 1 { Some(l.recs[i / 2]) } else { None };
                        match look(c, &b, &big_name(i)) {
                            None => return,
                            Some(Ok(x)) if x == want => {}
                            Some(Ok(Some(x))) => {
                                c.report(&["C05", "C06"], format!("looking up slot {i} of {n} with entry {e} damaged returns {x:#x}"), Some(&b));
                                return;
                            }
                            Some(_) => {
                                hit[i] += 1;
                            }
                        }
                    }
                }
                if let Some(i) = hit.iter().position(|h| *h > lim) {
                    c.report(
                        &["C06"],
                        format!("{n} keys ({lt:?}, leaves of {ch}): looking up slot {i} is changed by damage (kind {kind}) to {} entries, more than {lim}", hit[i]),
                        None,
                    );
                    return;
                }
            }
        },
    )
}

// ---------------------------------------------------------------------------------------------
// C07: paths

fn path_tree() -> Key {
    let lv2 = |d: Lt| -> Vec<Key> {
        vec![Key::l(" "), Key::l("."), Key::l("a"), Key::l("B").leaf(d, vec![Key::l("a"), Key::l("\u{e4}")])]
    };
    let mut a = Key::l("A");
    a.subs = store(&St::Ri(vec![(Lt::Lf, 2), (Lt::Li, 2)]), lv2(Lt::Li).into_iter().map(Ent::K).collect());
    // named like one of its subkeys, so that a path repeating the key's own name shows
    Key::l("b").leaf(
        Lt::Lh,
        vec![
            Key::l("").leaf(Lt::Lf, vec![Key::l("a")]),
            Key::l("\0").leaf(Lt::Lf, vec![Key::l("a")]),
            Key::l(" ").leaf(Lt::Lf, vec![Key::l("a")]),
            Key::l("."),
            Key::l("..").leaf(Lt::Lf, vec![Key::l("a")]),
            Key::l("/").leaf(Lt::Lf, vec![Key::l("a")]),
            a,
            Key::l("A.B"),
            Key::l("A/B"),
            Key::l("A\\B").leaf(Lt::Lf, vec![Key::l("zzz")]),
            Key::l("b").leaf(Lt::Lf, vec![Key::new(Nm::u("b")).leaf(Lt::Lf, vec![Key::l("a")])]),
            Key::new(Nm::u("\u{e4}")).leaf(Lt::Lf, vec![Key::l("A"), Key::l("b")]),
        ],
    )
}

/// Expected result of following a path, from the model alone.
fn path_model(m: &Model, k: MKey, p: &str) -> Option<R<MKey>> {
    let mut cur = k;
    for comp in p.split(|c| c == '\\') {
        if comp.is_empty() {
            continue;
        }
        match m.lookup(cur, comp) {
            Look::Exact(None) => return None,
            Look::Exact(Some(Err(e))) => return Some(Err(e)),
            Look::Exact(Some(Ok(n))) => cur = n,
            Look::OneOf(h) => match h.first() {
                None => return None,
                Some(h) => cur = *h,
            },
            Look::Sound(_) => return Some(Err(Ex::any())),
        }
    }
    Some(Ok(cur))
}

pub const PATH_ALPHA: [char; 9] = ['\\', '/', ' ', 'a', 'b', 'A', '.', '\u{e4}', '\0'];

pub fn paths(name: &'static str, len: usize) -> Drv {
    let img = Arc::new(build_tight(&path_tree(), 5).bytes);
    let a = PATH_ALPHA.len() as u64;
    // the first `pre` characters select the case, the rest is enumerated inside
    let pre = len.min(3);
    let n = a.pow(pre as u32);
    Drv::new(
        name,
        format!("every path of up to {len} characters over {PATH_ALPHA:?}, from the root and from three inner keys, in a tree with awkward names"),
        n,
        move |idx, c| {
            let img = &img[..];
            let m = Model::new(img);
            let h = Hive::without_validation(img).unwrap();
            let Ok(Some(root)) = quiet(|| h.root_key_node().ok()) else { return };
            let mroot = m.root().unwrap();
            let subs = m.subkeys(mroot).unwrap().unwrap();
            let mut starts = vec![(root.clone(), mroot)];
            if let Ok(Some(Ok(it))) = quiet(|| root.subkeys()) {
                for (i, (k, mk)) in it.zip(&subs.ents).enumerate() {
                    if let (6 | 10 | 0, Ok(k), Ok(mk)) = (i, k, mk) {
                        starts.push((k, *mk));
                    }
                }
            }
            let mut i = idx;
            let mut pfx = String::new();
            for _ in 0..pre {
                pfx.push(PATH_ALPHA[(i % a) as usize]);
                i /= a;
            }
            c.sample(|| format!("paths starting with {pfx:?}"));
            let mut work: Vec<String> = vec![];
            // shorter prefixes are covered once
            let mut ps: Vec<char> = pfx.chars().collect();
            while ps.last() == Some(&PATH_ALPHA[0]) {
                ps.pop();
                work.push(ps.iter().collect());
            }
            for tl in 0..=(len - pre) {
                for t in 0..a.pow(tl as u32) {
                    let mut s = pfx.clone();
                    let mut t = t;
                    for _ in 0..tl {
                        s.push(PATH_ALPHA[(t % a) as usize]);
                        t /= a;
                    }
                    work.push(s);
                }
            }
            for p in &work {
                for (k, mk) in &starts {
                    one_path(c, img, &m, k, *mk, p);
                }
            }
            c.states += work.len() as u64;
        },
    )
}

fn one_path(c: &mut Ctx, img: &[u8], m: &Model, k: &Kn, mk: MKey, p: &str) {
    let Some((got, id)) = c.call(T_PATH, "subpath", mk.p, img, || {
        let r = k.subpath(p);
        let id = match &r {
            Some(Ok(k)) => key_id(img, k),
            _ => None,
        };
        (r.map(|r| r.map(|_| ())), id)
    }) else {
        return;
    };
    let want = path_model(m, mk, p);
    if agree_opt(c, T_PATH, "subpath", mk.p, img, &got, &want) {
        let w = want.unwrap().unwrap();
        if id.is_some() && id != Some(w.p) {
            c.report(T_PATH, format!("subpath({p:?}) from {:#x} gives {id:x?} instead of {:#x}", mk.p, w.p), Some(img));
        }
    }
}

/// Paths in damaged trees, very long paths, deep paths: compared with the chain of single lookups.
pub fn path_chain(name: &'static str) -> Drv {
    let mut ps: Vec<String> = vec![];
    let comps = ["a", "b", "c", "A", "zz", ""];
    for x in comps {
        for y in comps {
            for z in comps {
                for w in ["", "\\", "\\\\"] {
                    ps.push(format!("{x}\\{y}\\{z}{w}"));
                    ps.push(format!("{w}{x}\\\\{y}\\{z}"));
                }
            }
        }
    }
    ps.sort();
    ps.dedup();
    let seeds = crate::faults::seeds();
    let mut cases: Vec<(usize, usize, u32)> = vec![];
    for (i, (_, s)) in seeds.iter().enumerate() {
        cases.push((i, usize::MAX, 0));
        for (j, f) in s.fields.iter().enumerate() {
            if matches!(f.kind, FK::Ref | FK::CellSize | FK::Sig | FK::Count | FK::Len | FK::Flags) {
                for v in crate::faults::interesting(s, f, true) {
                    cases.push((i, j, v));
                }
            }
        }
    }
    let n = cases.len() as u64;
    Drv::new(
        name,
        format!("{} paths of up to three components in {n} hives with one damaged field: same result as the chain of single lookups", ps.len()),
        n,
        move |idx, c| {
            let (s, j, v) = cases[idx as usize];
            let (nm, img) = &seeds[s];
            let mut b = img.bytes.clone();
            if j != usize::MAX {
                crate::faults::set(&mut b, &img.fields[j], v);
                c.sample(|| format!("seed {nm}: {} = {v:#x}", img.fields[j].name));
            }
            let m = Model::new(&b);
            let h = Hive::without_validation(&b[..]).unwrap();
            let Ok(Some(root)) = quiet(|| h.root_key_node().ok()) else { return };
            let Ok(mroot) = m.root() else { return };
            for p in &ps {
                path(c, &b, &m, &root, mroot, p);
            }
            c.states += 1;
        },
    )
    .chunk(4)
}

/// Extreme arguments: huge numbers of separators, components, characters.
pub fn extreme_args(name: &'static str) -> Drv {
    Drv::new(name, "12 extreme path and name arguments (up to 4 million characters), a 300-level path, and paths with a component behind, between and before 2^16 ... 2^24 separators (each also one less and one more)", 12 + 81, |idx, c| {
        // a chain of 300 levels
        let mut k = Key::l("z");
        for i in (0..300).rev() {
            k = Key::l(if i % 2 == 0 { "k" } else { "K" }).leaf(LTS[i % 3], vec![k]);
        }
        let img = build_tight(&k, 5).bytes;
        let m = Model::new(&img);
        let h = Hive::without_validation(&img[..]).unwrap();
        let Ok(Some(root)) = quiet(|| h.root_key_node().ok()) else { return };
        let mroot = m.root().unwrap();
        let s = match idx {
            0 => "\\".repeat(1_000_000),
            1 => "k\\".repeat(299),
            2 => format!("{}z", "k\\\\".repeat(299)),
            3 => "k\\".repeat(200_000),
            4 => "k".repeat(70_000),
            5 => "\u{10ffff}".repeat(70_000),
            6 => format!("{}k", "\\".repeat(300_000)),
            7 => format!("k{}", "\\".repeat(300_000)),
            8 => "\0".repeat(65_536),
            9 => "\u{ffff}".repeat(65_535),
            10 => format!("{}\\z", "K\\k".repeat(150)),
            11 => "k\\".repeat(2_000_000),
            i => {
                let (n, at) = ((i - 12) / 3, (i - 12) % 3);
                let seps = "\\".repeat((1usize << (24 - n / 3)) - 1 + n as usize % 3);
                match at {
                    0 => format!("{seps}k"),
                    1 => format!("k{seps}K"),
                    _ => format!("k\\{seps}absent"),
                }
            }
        };
        c.sample(|| format!("argument of {} characters starting {:?}", s.len(), s.chars().take(6).collect::<String>()));
        path(c, &img, &m, &root, mroot, &s);
        one_path(c, &img, &m, &root, mroot, &s);
        let subs = m.subkeys(mroot).unwrap().unwrap();
        subkey(c, &img, &m, &root, mroot, &subs, &s);
        value_lookup(c, &img, &m, &root, mroot, &s);
        c.states += 1;
    })
}

// ---------------------------------------------------------------------------------------------
// Long names

fn name_lens(tier: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = if tier == Tier::Quick {
        (1..=20).chain([24, 31, 32, 33, 47, 48, 62, 63, 64, 65, 66, 84, 85, 86, 100, 126, 127, 128, 129, 130, 160, 191, 192, 200]).collect()
    } else {
        (1..=1100).collect()
    };
    v.extend([253, 254, 255, 256, 257, 258, 259, 260, 261, 300, 510, 511, 512, 513, 520, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192]);
    v.extend([10922, 10923, 16383, 16384, 16385, 21845, 21846, 32765, 32766, 32767, 32768, 32769, 65534, 65535]);
    v.sort();
    v.dedup();
    v
}

/// Keys and values with long names next to neighbours that differ only in the last unit or in
/// length; found as stored, in the other case, and as path components; near misses absent.
pub fn long_names(name: &'static str, tier: Tier) -> Drv {
    let ls = name_lens(tier);
    let ch: [(&str, &str); 6] = [("k", "K"), ("\u{e4}", "\u{c4}"), ("\u{3b1}", "\u{391}"), ("\u{ff41}", "\u{ff21}"), ("\u{10428}", "\u{10428}"), ("\u{df}", "\u{df}")];
    let n = (ls.len() * ch.len()) as u64;
    Drv::new(
        name,
        format!("keys and values with names of {} lengths from 1 to {} units of 6 characters (1 to 4 UTF-8 bytes each), Latin-1 and UTF-16, beside neighbours of almost the same name; every near miss probed, also as path components", ls.len(), ls[ls.len() - 1]),
        n,
        move |idx, c| {
            let l = ls[ls.len() - 1 - idx as usize / ch.len()];
            let (lo, up) = ch[idx as usize % ch.len()];
            let w = str_units(lo).len();
            let chars = l / w;
            c.sample(|| format!("names of {chars} times {lo:?}"));
            let long = lo.repeat(chars);
            let pfx = lo.repeat(chars.saturating_sub(1));
            // in upcase order: prefix, name, name + one more, name with a larger last unit
            let mut names: Vec<String> = vec![];
            if chars > 1 {
                names.push(pfx.clone());
            }
            if chars > 0 {
                names.push(long.clone());
            }
            names.push(format!("{long}{lo}"));
            names.push(format!("{pfx}\u{ff9f}"));
            names.sort_by(|a, b| cmp_units(&str_units(a), &str_units(b)));
            names.dedup();
            let mut probes: Vec<String> = names.clone();
            probes.extend([up.repeat(chars), format!("{long}\0"), format!("{pfx}j"), format!("{long}{lo}{lo}"), format!("\0{long}"), format!("{long} "), lo.repeat(chars.saturating_sub(2))]);
            if chars > 1 {
                probes.push(format!("{up}{}", lo.repeat(chars - 1)));
                probes.push(format!("{}{up}", lo.repeat(chars - 1)));
                probes.push(format!("j{}", lo.repeat(chars - 1)));
            }
            for enc in [true, false] {
                let fit: Vec<&String> = names
                    .iter()
                    .filter(|s| {
                        let u = str_units(s);
                        u.len() * if enc && u.iter().all(|x| *x < 256) { 1 } else { 2 } <= 65535
                    })
                    .collect();
                let mk = |s: &str| Key::new(nm(&str_units(s), enc));
                for (si, st) in [St::Flat(LTS[idx as usize % 3]), St::Ri((0..fit.len()).map(|i| (LTS[i % 3], 1)).collect())].into_iter().enumerate() {
                    let ents: Vec<Ent> = fit
                        .iter()
                        .map(|s| {
                            let mut k = mk(s);
                            if si == 0 {
                                k.subs = Subs::Leaf(Lt::Lh, fit.iter().map(|s| Ent::K(mk(s))).collect());
                            }
                            Ent::K(k)
                        })
                        .collect();
                    let mut root = Key::l("R").vals(fit.iter().rev().map(|s| Val::new(nm(&str_units(s), enc), 4, Dat::Inline(vec![1, 2, 3, 4]))).collect());
                    root.subs = store(&st, ents);
                    let mut b = B::quiet();
                    let o = b.key(&root, 0);
                    let img = b.finish_tight(o, 5).bytes;
                    let m = Model::new(&img);
                    let h = Hive::without_validation(&img[..]).unwrap();
                    let Some(Ok(k)) = c.call(T_ROOT, "root", 36, &img, || h.root_key_node()) else { return };
                    let mk = m.root().unwrap();
                    let subs = m.subkeys(mk).unwrap().unwrap();
                    for p in &probes {
                        subkey(c, &img, &m, &k, mk, &subs, p);
                        value_lookup(c, &img, &m, &k, mk, p);
                        one_path(c, &img, &m, &k, mk, p);
                        if si == 0 {
                            for s in &fit {
                                one_path(c, &img, &m, &k, mk, &format!("{s}\\{p}"));
                                one_path(c, &img, &m, &k, mk, &format!("\\\\{s}\\\\{p}\\"));
                            }
                        }
                    }
                    c.states += 1;
                }
            }
        },
    )
}

/// Names that some interface, file system or Unicode rule treats specially; the registry does not.
pub const ODD: &[&str] = &[
    "", "(Default)", "(default)", "(Standard)", "Default", "default", "@", ".", "..", "...", "*", "?", "a*", "a?", "?a", "**", "[a]", "%", "%20", "a%",
    "~", "~1", "A~1", "_", "a_", "-", "a-b", "0", "00", "1", "01", "10", "2", "-1", "+1", "0x1", "1.0", "con", "NUL", "nil", "null", "None", "a", "A", "aa",
    "Aa", "a ", " a", " a ", "  ", " ", "a.", ".a", "a\0", "\0", "\0a", "a\0b", "\t", "\n", "a\r", "a\r\n", "\u{1}", "\u{7f}", "\u{80}", "\u{85}", "\u{a0}",
    "\u{ad}", "a\u{ad}", "\u{b5}", "\u{3bc}", "\u{39c}", "\u{df}", "ss", "SS", "\u{1e9e}", "\u{17f}", "s", "S", "i", "I", "\u{130}", "\u{131}", "i\u{307}", "k",
    "\u{212a}", "\u{e5}", "\u{c5}", "\u{212b}", "e\u{301}", "\u{e9}", "\u{c9}", "E\u{301}", "\u{301}", "\u{1c4}", "\u{1c5}", "\u{1c6}", "D\u{17d}", "\u{149}",
    "\u{2bc}N", "\u{fb01}", "fi", "FI", "\u{3c2}", "\u{3c3}", "\u{3a3}", "\u{ff}", "\u{178}", "\u{feff}", "\u{feff}a", "\u{fffe}", "\u{ffff}", "\u{fffd}",
    "\u{200b}", "a\u{200b}", "\u{200d}", "\u{202e}a", "\u{2028}", "\u{3000}", "\u{ff41}", "\u{ff21}", "\u{d7ff}", "\u{e000}", "\u{10428}", "\u{10400}", "\u{10000}",
    "\u{10ffff}", "a\u{10000}", "\u{10000}a", "/", "//", "/a", "a/", "a/b", "\\", "\\a", "a\\", "a\\b", "\\\\a", "c:", "c:\\a", "\"a\"", "'a'", "{a}", "$a",
    "#", "a#", "a,b", "a;b", "a=b", "a|b", "^a", "a$", "(a)", "a+", "{00000000-0000-0000-0000-000000000000}", "S-1-5-18", "HKLM", "CurrentControlSet", "Registry",
    "\u{2200}", "\u{4e00}", "\u{ac00}", "\u{1100}\u{1161}", "\u{130}\u{df}",
    "'", "\u{2019}", "\u{2018}a\u{2019}", "\u{201c}a\u{201d}", "a\u{2013}b", "a\u{2212}b", "a\u{2010}b", "\u{fb00}", "ff", "\u{ff3c}", "a\u{ff3c}a", "a\u{ff3c}", "\u{2216}a",
    "a\u{2215}b", "a\u{2044}b", "&", "&amp;", "a&b", "a&amp;b", "<a>", "&lt;", "\u{200e}a", "a\u{200e}", "\u{2060}a", "a\u{200c}b", "ab", "a\ta", "a\u{a0}b", "a b",
    "a\u{3000}b", "a\u{2009}b", "a\nb", "a\r\nb", "a\n", "\ra", "%61", "a%61", "a%20b", "%a%", "%%", "\\n", "a\\n", "\\x61", "\\0", "a:b", ":a", "a:", "a\\:b", "\u{ff0e}",
    "HKEY_LOCAL_MACHINE", "HKEY_LOCAL_MACHINE\\a", "HKLM\\a", "Computer\\a", "\\REGISTRY\\MACHINE\\a", "\\Registry\\a", "REGISTRY\\a", "\\??\\a", "\\\\?\\a", "\\\\.\\a", ".\\a",
    "..\\a", "a\\.", "a\\..", "a\\.\\a", "a\\..\\a", "a\\*", "*\\a", "a\\a\0", "a\0\\a", "a \\a", "a\\ a", "a\\\"a\"", "\"a\\a\"", "a/a\\a", "a\\a/", "R", "R\\a", "\\R\\a", "root\\a",
    "aa'", "a''a", "[0]", "a[0]", "a(1)", "a (2)", "a\u{1}", "a\u{1b}[0m", "a\u{8}", "\u{1f600}", "\u{1f600}\u{fe0f}", "a\u{fe0f}", "\u{1f1e9}\u{1f1ea}", "\u{e9}\u{301}", "\u{3b1}\u{345}", "\u{1fb3}",
    "\u{1f80}", "\u{1f88}", "\u{587}", "\u{13a0}", "\u{ab70}", "\u{a64a}", "\u{1c88}", "\u{10d0}", "\u{1c90}", "\u{2c2f}", "\u{2c5f}", "\u{a7b3}", "\u{ab53}", "\u{1e921}", "\u{118c0}", "\u{118a0}",
];

/// Every pair of odd stored name and odd probe: alone in a list, and all together.
pub fn odd_names(name: &'static str) -> Drv {
    let n = ODD.len() as u64;
    Drv::new(
        name,
        format!("each of {n} names that other systems treat specially (wildcards, dots, blanks, controls, escapes, numbers, folding and normalisation cases, separators) stored as the only key and value, and all stored together in 4 structures, with all {n} looked up as key, value and path"),
        n + 8,
        move |idx, c| {
            let (sets, st, enc): (Vec<&str>, St, bool) = if idx < 8 {
                let mut v: Vec<&str> = vec![];
                for s in ODD {
                    let u = str_units(s);
                    if !v.iter().any(|t| cmp_units(&str_units(t), &u) == std::cmp::Ordering::Equal) {
                        v.push(s);
                    }
                }
                v.sort_by(|a, b| cmp_units(&str_units(a), &str_units(b)));
                let l = v.len();
                let st = match idx / 2 {
                    0 => St::Flat(Lt::Lf),
                    1 => St::Flat(Lt::Li),
                    2 => St::Ri((0..l).map(|i| (LTS[i % 3], 1)).collect()),
                    _ => St::Ri(vec![(Lt::Lh, l / 2), (Lt::Li, 3), (Lt::Lf, l - l / 2 - 3)]),
                };
                (v, st, idx % 2 == 0)
            } else {
                (vec![ODD[idx as usize - 8]], St::Flat(LTS[idx as usize % 3]), true)
            };
            c.sample(|| format!("{:?}", if sets.len() > 1 { &sets[..3] } else { &sets[..] }));
            for enc in [enc, !enc] {
                let mk = |s: &str| Key::new(nm(&str_units(s), enc));
                let mut root = Key::l("R").vals(sets.iter().rev().map(|s| Val::new(nm(&str_units(s), enc), 4, Dat::Inline(vec![1, 2, 3, 4]))).collect());
                root.subs = store(&st, sets.iter().map(|s| Ent::K(mk(s).leaf(Lt::Lh, vec![mk("a")]))).collect());
                let mut b = B::quiet();
                let o = b.key(&root, 0);
                let img = b.finish_tight(o, 5).bytes;
                let m = Model::new(&img);
                let h = Hive::without_validation(&img[..]).unwrap();
                let Some(Ok(k)) = c.call(T_ROOT, "root", 36, &img, || h.root_key_node()) else { return };
                let mk = m.root().unwrap();
                let subs = m.subkeys(mk).unwrap().unwrap();
                for p in ODD {
                    subkey(c, &img, &m, &k, mk, &subs, p);
                    value_lookup(c, &img, &m, &k, mk, p);
                    one_path(c, &img, &m, &k, mk, p);
                    one_path(c, &img, &m, &k, mk, &format!("\\{p}\\\\a\\"));
                }
                c.states += 1;
            }
        },
    )
}

/// Paths of every number of components, in a hive where they never end (a is b's subkey and b is
/// a's) and in one where they end after 600 levels.
pub fn deep_paths(name: &'static str, tier: Tier) -> Drv {
    let mut ns: Vec<usize> = (1..=if tier == Tier::Quick { 1100 } else { 5000 }).collect();
    ns.extend([2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10_000, 16_383, 16_384, 16_385, 32_766, 32_767, 32_768, 32_769, 65_534, 65_535, 65_536, 65_537, 100_000]);
    ns.sort();
    ns.dedup();
    let n = ns.len() as u64;
    Drv::new(
        name,
        format!("paths of {n} numbers of components from 1 to 100000, 3 separator styles, in a cyclic hive (every one exists) and in a chain of 600 levels (absent beyond it)"),
        n,
        move |idx, c| {
            let l = ns[ns.len() - 1 - idx as usize];
            c.sample(|| format!("{l} components"));
            let mut b = B::quiet();
            let (x, y) = (b.nk(&Key::l("a"), 0), b.nk(&Key::l("b"), 0));
            let lx = b.leaf(Lt::Lf, &[(y, *b"b\0\0\0", [0; 4])], 0);
            let ly = b.leaf(Lt::Li, &[(x, *b"a\0\0\0", [0; 4])], 0);
            let ry = b.ri(&[ly], 0);
            b.set_subs(x, lx, 1);
            b.set_subs(y, ry, 1);
            let cyclic = b.finish_tight(x, 5).bytes;
            let mut k = Key::l("z");
            for i in (0..600).rev() {
                k = Key::l(if i % 2 == 0 { "A" } else { "b" }).leaf(LTS[i % 3], vec![k]);
            }
            let chain = build_tight(&k, 5).bytes;
            for img in [&cyclic, &chain] {
                let m = Model::new(img);
                let h = Hive::without_validation(&img[..]).unwrap();
                let Some(Ok(k)) = c.call(T_ROOT, "root", 36, img, || h.root_key_node()) else { return };
                let mk = m.root().unwrap();
                for style in 0..3 {
                    let mut s = String::new();
                    for i in 0..l {
                        if style == 1 || (style == 2 && i % 3 == 0) {
                            s.push('\\');
                        }
                        s.push(if i % 2 == 0 { 'B' } else { 'a' });
                        s.push('\\');
                    }
                    if style == 0 {
                        s.pop();
                    }
                    one_path(c, img, &m, &k, mk, &s);
                }
                c.states += 1;
            }
        },
    )
}

/// Every number of entries, in place: one list of 65535 entries of which the first n count.
pub fn every_count(name: &'static str, tier: Tier) -> Drv {
    const N: usize = 65535;
    const CH: usize = 512;
    struct L {
        img: Vec<u8>,
        at: usize,
        recs: Vec<usize>,
    }
    let lists: Arc<[std::sync::OnceLock<L>; 4]> = Arc::new(Default::default());
    let dense = if tier == Tier::Quick { 61 } else { 7 };
    let blocks = (N + 1).div_ceil(CH);
    Drv::new(
        name,
        format!("every list of 1..=65535 entries (lf, lh, li, and an index of that many one-entry lists): count, last, nth around the end, the first, middle and last key and the one behind the counted ones looked up; all of 1..=3000 and each {dense}th longer one enumerated; of the indexes only those counted and stepped through"),
        4 * blocks as u64,
        move |idx, c| {
            let kind = idx as usize % 4;
            let blk = blocks - 1 - idx as usize / 4;
            c.sample(|| format!("list kind {kind}, counts {}..", blk * CH));
            let l = lists[kind].get_or_init(|| {
                let mut b = B::quiet();
                let root = b.nk(&Key::l("R"), 0);
                let mut recs = vec![];
                let mut items = vec![];
                for i in 0..N {
                    let o = b.nk(&Key::l(&format!("K{i:05}")), root);
                    recs.push(o as usize + 4 + BASE);
                    items.push((o, *b"K\0\0\0", [0; 4]));
                }
                let list = if kind < 3 {
                    // no item may be taken for another: real hints and hashes do not matter to the library
                    b.leaf(LTS[kind], &items, 0)
                } else {
                    let subs: Vec<u32> = items.iter().map(|i| b.leaf(Lt::Li, &[*i], 0)).collect();
                    b.ri(&subs, 0)
                };
                b.set_subs(root, list, N as u32);
                L { img: b.finish_tight(root, 5).bytes, at: list as usize + 4 + BASE + 2, recs }
            });
            let mut img = l.img.clone();
            for n in (blk * CH).max(1)..((blk + 1) * CH).min(N + 1) {
                img[l.at..l.at + 2].copy_from_slice(&(n as u16).to_le_bytes());
                let img = &img[..];
                let h = Hive::without_validation(img).unwrap();
                let Some(Ok(k)) = c.call(T_ROOT, "root", 36, img, || h.root_key_node()) else { return };
                c.states += 1;
                let full = n <= 3000 || n % dense == 0;
                let id = |x: Option<nt_hive::Result<Kn>>| x.map(|x| x.ok().and_then(|x| key_id(img, &x)));
                let r = c.call(T_SUBS, "subkeys", 36, img, || {
                    let Some(Ok(it)) = k.subkeys() else { return None };
                    let bad = full.then(|| {
                        let mut m = 0;
                        let mut bad = None;
                        for x in it.clone().take(n + 2) {
                            if bad.is_none() && id(Some(x)).flatten() != l.recs[..n].get(m).copied() {
                                bad = Some(m);
                            }
                            m += 1;
                        }
                        (m, bad)
                    });
                    if kind == 3 && !full {
                        // an index has to be walked through for these
                        return Some((bad, n, Some(Some(l.recs[n - 1])), Some(Some(l.recs[n - 1])), false, Some(Some(l.recs[n / 2]))));
                    }
                    Some((bad, it.clone().count(), id(it.clone().last()), id(it.clone().nth(n - 1)), it.clone().nth(n).is_some(), id(it.clone().nth(n / 2))))
                });
                let Some(r) = r else { return };
                let at = |i: usize| Some(Some(l.recs[i]));
                let Some((bad, cnt, last, nth, behind, mid)) = r else {
                    c.report(T_SUBS, format!("list kind {kind} of {n} entries: no enumeration"), None);
                    return;
                };
                if let Some((m, b)) = bad {
                    c.transitions += m as u64;
                    if m != n || b.is_some() {
                        c.report(T_SUBS, format!("list kind {kind} of {n} entries: {m} items, first wrong one {b:?}"), None);
                        return;
                    }
                }
                if cnt != n || last != at(n - 1) || nth != at(n - 1) || behind || mid != at(n / 2) {
                    c.report(&["C04", "C15"], format!("list kind {kind} of {n} entries: count {cnt}, last {last:x?}, nth(n-1) {nth:x?}, nth(n/2) {mid:x?}, one behind the end: {behind}"), None);
                    return;
                }
                for i in [0, n / 3, n / 2, n.saturating_sub(2), n - 1, n, n + 1] {
                    let p = format!("k{i:05}");
                    let Some(r) = c.call(T_SUBK, "subkey", 36, img, || id(k.subkey(&p))) else { return };
                    if r != if i < n { at(i) } else { None } {
                        c.report(T_SUBK, format!("list kind {kind} of {n} entries: looking up {p:?} gives {r:x?}"), None);
                        return;
                    }
                }
            }
        },
    )
}
