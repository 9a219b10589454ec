//! C16: clearing volatile subkey counts.

use crate::engine::*;
use crate::img::*;
use crate::lists::*;
use crate::model::*;
use crate::walk::*;

/// Ordered trees with n nodes as child-count sequences (preorder).
pub fn trees(n: usize) -> Vec<Vec<usize>> {
    fn go(left: usize, open: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if open == 0 {
            if left == 0 {
                out.push(cur.clone());
            }
            return;
        }
        if left == 0 {
            return;
        }
        // next node in preorder takes k children
        for k in 0..left {
            cur.push(k);
            go(left - 1, open - 1 + k, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(n, 1, &mut vec![], &mut out);
    out.retain(|t| t.iter().sum::<usize>() == n - 1);
    out
}

fn make(t: &[usize], at: &mut usize, fmt: &dyn Fn(usize, usize) -> St, vol: &dyn Fn(usize) -> u32) -> Key {
    let id = *at;
    *at += 1;
    let mut k = Key::l(&format!("k{}", (b'a' + id as u8) as char)).vol(vol(id));
    let mut kids = vec![];
    for _ in 0..t[id] {
        kids.push(Ent::K(make(t, at, fmt, vol)));
    }
    k.subs = store(&fmt(id, kids.len()), kids);
    k
}

const VOLS: [u32; 4] = [1, 0, 0xFFFF_FFFF, 0x0100_0000];

/// Every small tree with every list format and every placement of counts.
pub fn small_trees(name: &'static str, max: usize) -> Drv {
    let mut cases = vec![];
    for n in 1..=max {
        for t in trees(n) {
            for f in 0..6u32 {
                cases.push((t.clone(), f));
            }
        }
    }
    let nn = cases.len() as u64;
    Drv::new(
        name,
        format!("every ordered key tree of 1..={max} keys x 6 list format assignments (lf, lh, li, one index over all, index of single-entry leaves, alternating) x every placement of 4 volatile counts, with a decoy key that is not linked ({nn} trees x 4^n)"),
        nn,
        move |idx, c| {
            let (t, f) = &cases[idx as usize];
            let n = t.len();
            c.sample(|| format!("tree {t:?}, formats {f}"));
            let fmt = |id: usize, kids: usize| -> St {
                let ri = |v| St::Ri(v);
                match (f, kids) {
                    (0, 0) => St::Flat(Lt::Lf),
                    (1, 0) => ri(vec![]),
                    (_, 0) => St::NoList,
                    (0, _) => St::Flat(Lt::Lf),
                    (1, _) => St::Flat(Lt::Lh),
                    (2, _) => St::Flat(Lt::Li),
                    (3, k) => ri(vec![(LTS[id % 3], k)]),
                    (4, k) => ri((0..k).map(|i| (LTS[(i + id) % 3], 1)).collect()),
                    (_, k) => {
                        if id % 2 == 0 {
                            ri(vec![(Lt::Li, 1), (Lt::Lf, k - 1)].into_iter().filter(|x| x.1 > 0).collect())
                        } else {
                            St::Flat(LTS[id % 3])
                        }
                    }
                }
            };
            for v in 0..4u32.pow(n as u32) {
                let vol = |id: usize| VOLS[(v / 4u32.pow(id as u32) % 4) as usize];
                let mut b = B::quiet();
                let mut at = 0;
                let k = make(t, &mut at, &fmt, &vol);
                b.nk(&Key::l("decoy").vol(0x55), 0);
                let o = b.key(&k, 0);
                b.nk(&Key::l("decoy2").vol(0x66), o);
                let img = b.finish_tight(o, 5);
                c.states += 1;
                clear(c, &img.bytes);
            }
        },
    )
}

/// Every tree with one or two damaged places.
pub fn damaged_trees(name: &'static str, max: usize) -> Drv {
    let mut cases = vec![];
    for n in 2..=max {
        for t in trees(n) {
            for f in 0..3u32 {
                cases.push((t.clone(), f));
            }
        }
    }
    let nn = cases.len() as u64;
    Drv::new(
        name,
        format!("every ordered key tree of 2..={max} keys x 3 format assignments x every pair of damaged structural fields out of (subkey list reference, list cell, list signature, list count, entry reference, key signature)"),
        nn,
        move |idx, c| {
            let (t, f) = &cases[idx as usize];
            c.sample(|| format!("tree {t:?}, formats {f}"));
            let fmt = |id: usize, kids: usize| -> St {
                match (f, kids) {
                    (_, 0) => St::NoList,
                    (0, _) => St::Flat(LTS[id % 3]),
                    (1, k) => St::Ri((0..k).map(|i| (LTS[(i + id) % 3], 1)).collect()),
                    (_, k) => St::Ri(vec![(LTS[id % 3], k)]),
                }
            };
            let mut at = 0;
            let k = make(t, &mut at, &fmt, &|id| id as u32 + 1);
            let mut b = B::new();
            let o = b.key(&k, 0);
            let img = b.finish_tight(o, 5);
            let fs: Vec<Field> = img
                .fields
                .iter()
                .filter(|f| {
                    matches!(
                        f.name,
                        "nk.subkeys_list" | "leaf.cell" | "ri.cell" | "leaf.sig" | "ri.sig" | "leaf.count" | "ri.count" | "leaf.item" | "ri.item" | "nk.sig" | "nk.cell"
                    )
                })
                .copied()
                .collect();
            for i in 0..fs.len() {
                for j in i..fs.len() {
                    let mut b = img.bytes.clone();
                    for x in [i, j] {
                        let f = &fs[x];
                        let v = match f.kind {
                            FK::Ref => 0x7FFF_FFF0,
                            FK::CellSize => 64,
                            FK::Sig => 0x7878,
                            _ => 0xFFFF,
                        };
                        crate::faults::set(&mut b, f, v);
                    }
                    c.states += 1;
                    clear(c, &b);
                }
            }
            // entries reduced to fewer than stored, references dropped
            for f in &fs {
                let mut b = img.bytes.clone();
                match f.kind {
                    FK::Count => {
                        let v = crate::faults::get(&b, f) - 1;
                        crate::faults::set(&mut b, f, v)
                    }
                    FK::Ref => crate::faults::set(&mut b, f, NONE),
                    _ => continue,
                }
                c.states += 1;
                clear(c, &b);
            }
        },
    )
}

/// The same key referenced from several lists, keys sharing one list, and deep or wide trees.
pub fn shapes(name: &'static str) -> Drv {
    Drv::new(name, "shared keys and lists; every number of levels to 64, 512 (the registry's limit) and 1000 levels in 4 formats; wide lists up to 65535 keys; a wide index", 16 + 65 * 4, |idx, c| {
        let img = match idx {
            0..=3 | 16.. => {
                let (levels, idx) = match idx {
                    0..=3 => (512, idx),
                    i => ([1000].into_iter().chain(1..=64).nth((i as usize - 16) / 4).unwrap(), i % 4),
                };
                let mut k = Key::l("z").vol(9);
                for i in (0..levels - 1u32).rev() {
                    let mut p = Key::l("k").vol(i + 1);
                    let st = match idx {
                        3 => St::Ri(vec![(LTS[i as usize % 3], 1)]),
                        x => St::Flat(LTS[x as usize]),
                    };
                    p.subs = store(&st, vec![Ent::K(k)]);
                    k = p;
                }
                c.sample(|| format!("{levels} levels"));
                build_tight(&k, 5).bytes
            }
            4..=9 => {
                let (n, lt, ch) = [
                    (65535, Some(Lt::Lf), 0),
                    (65535, Some(Lt::Li), 0),
                    (65535, Some(Lt::Lh), 0),
                    (70000, None, 511),
                    (65535, None, 1),
                    (1000, None, 7),
                ][idx as usize - 4];
                c.sample(|| format!("{n} keys, index leaves of {ch}"));
                big_list(n, lt, ch).bytes
            }
            10 | 11 | 12 => {
                // diamond: two parents share a child list or a child
                let mut b = B::quiet();
                let c0 = b.nk(&Key::l("c").vol(5), 0);
                let l = b.leaf(Lt::Lf, &[(c0, *b"c\0\0\0", [0; 4])], 0);
                let l2 = b.leaf(Lt::Li, &[(c0, [0; 4], [0; 4]), (c0, [0; 4], [0; 4])], 0);
                let p0 = b.nk(&Key::l("p").vol(6), 0);
                let p1 = b.nk(&Key::l("q").vol(7), 0);
                b.set_subs(p0, l, 1);
                b.set_subs(p1, if idx == 10 { l } else { l2 }, 1);
                let top = b.leaf(Lt::Lh, &[(p0, [0; 4], [0; 4]), (p1, [0; 4], [0; 4])], 0);
                let r = b.nk(&Key::l("r").vol(8), 0);
                let top = if idx == 12 { b.ri(&[top, l2], 0) } else { top };
                b.set_subs(r, top, 2);
                c.sample(|| "shared records".into());
                b.finish_tight(r, 5).bytes
            }
            13 => {
                // damaged behind an undamaged sibling, at depth
                let mut b = B::quiet();
                let mut k = Key::l("d").vol(4);
                k.subs = Subs::Off(NONE - 7);
                let r = Key::l("r").vol(1).leaf(Lt::Lf, vec![Key::l("a").vol(2), Key::l("b").vol(3).leaf(Lt::Li, vec![k]), Key::l("c").vol(5)]);
                let o = b.key(&r, 0);
                c.sample(|| "damage at depth 3".into());
                b.finish_tight(o, 5).bytes
            }
            14 => {
                // a key record whose count lies in another key's name
                let mut b = B::quiet();
                let r = b.nk(&Key::l("r").vol(1), 0);
                let k = b.nk(&Key::new(Nm::L(vec![b'n'; 60])).vol(2), r);
                let l = b.leaf(Lt::Lf, &[(k, *b"nnnn", [0; 4])], 0);
                b.set_subs(r, l, 1);
                c.sample(|| "long name".into());
                b.finish_tight(r, 5).bytes
            }
            _ => {
                c.sample(|| "padded image of the field fault seed".into());
                build(&crate::faults::seed_ri(), 5).bytes
            }
        };
        c.states += 1;
        clear(c, &img);
        reads_keep_bytes(c, &img);
    })
}

/// Reading through a mutable buffer leaves every byte alone, before and after clearing.
pub fn reads_keep_bytes(c: &mut Ctx, img: &[u8]) {
    if img.len() > 200_000 {
        return;
    }
    let (_, _, paths, cyc) = Model::new(img).reachable(1000);
    if cyc || paths >= 1000 {
        return;
    }
    let mut buf = img.to_vec();
    let r = c.call(&["C16"], "reading through a mutable buffer", 0, img, || {
        let h = nt_hive::Hive::without_validation(&mut buf[..])?;
        let _ = h.validate();
        let mut st = vec![h.root_key_node()?];
        let mut n = 0;
        while let Some(k) = st.pop() {
            n += 1;
            if n > 2000 {
                break;
            }
            let _ = (k.name().map(|n| n.len()), k.class_name().map(|c| c.map(|n| n.len())), k.subkey("a").is_some(), k.value("").is_some(), k.subpath("a\\b").is_some());
            if let Some(Ok(vs)) = k.values() {
                for v in vs.flatten() {
                    let _ = (v.data().and_then(|d| d.into_vec()), v.string_data(), v.dword_data(), v.qword_data());
                    if let Ok(m) = v.multi_string_data() {
                        let _ = m.take(100).count();
                    }
                }
            }
            if let Some(Ok(s)) = k.subkeys() {
                st.extend(s.flatten());
            }
        }
        Ok::<_, nt_hive::NtHiveError>(())
    });
    let _ = r;
    if buf != img {
        let d = buf.iter().zip(img).position(|(a, b)| a != b).unwrap();
        c.report(&["C16", "C18"], format!("reading changed byte {d:#x}"), Some(img));
    }
}

/// Every single-field fault, read through a mutable buffer.
pub fn reads(name: &'static str) -> Drv {
    let mut sd = crate::faults::seeds();
    sd.push(("small-big", crate::refs::small_big()));
    let mut cases = vec![];
    for (i, (_, s)) in sd.iter().enumerate() {
        for (j, f) in s.fields.iter().enumerate() {
            cases.push((i, j, crate::faults::get(&s.bytes, f)));
            for v in crate::faults::interesting(s, f, false) {
                cases.push((i, j, v));
            }
        }
    }
    let n = cases.len() as u64;
    Drv::new(
        name,
        format!("{n} intact and single-field-damaged hives read completely through a mutable buffer, bytes compared afterwards"),
        n,
        move |idx, c| {
            let (s, j, v) = cases[idx as usize];
            let (nm, img) = &sd[s];
            let f = &img.fields[j];
            c.sample(|| format!("seed {nm}: {} at {:#x} = {v:#x}", f.name, f.pos));
            let mut b = img.bytes.clone();
            crate::faults::set(&mut b, f, v);
            c.states += 1;
            reads_keep_bytes(c, &b);
        },
    )
    .chunk(16)
}

/// Clearing a hive whose key graph is not a tree, in a child process: cycles, extreme depth, and a
/// chain of diamonds (2^60 paths). The library has no bound of its own there; these are listed findings.
pub fn runaway(name: &'static str) -> Drv {
    Drv::new(name, "clearing in a child process with an 8 MiB stack and 10 s: a key in its own list (leaf and two-level index), two keys containing each other, a chain of 100000 keys, 60 levels of diamonds; a chain of 512 keys as control", 6, |idx, c| {
        let (key, b) = match idx {
            0 => ("clear-cycle-self", crate::tool::cycle(1)),
            1 => ("clear-cycle-2", crate::tool::cycle(2)),
            2 => ("clear-cycle-ri", {
                let mut b = B::quiet();
                let k = b.nk(&Key::l("k"), 0);
                let l = b.leaf(Lt::Li, &[(k, [0; 4], [0; 4])], 0);
                let r = b.ri(&[l, l], 0);
                b.set_subs(k, r, 2);
                b.finish(k, 5).bytes
            }),
            3 => ("clear-deep-chain", crate::tool::chain(100_000)),
            4 => ("clear-dag", {
                let mut b = B::quiet();
                let mut k = b.nk(&Key::l("k"), 0);
                for _ in 0..60 {
                    let l = b.leaf(Lt::Li, &[(k, [0; 4], [0; 4]), (k, [0; 4], [0; 4])], 0);
                    k = b.nk(&Key::l("k"), 0);
                    b.set_subs(k, l, 2);
                }
                b.finish(k, 5).bytes
            }),
            _ => ("", crate::tool::chain(512)),
        };
        c.sample(|| format!("runaway case {idx} {key}"));
        c.states += 1;
        c.transitions += 1;
        let p = verif_dir().join("target/run").join(format!("runaway-{}-{idx}.hive", std::process::id()));
        std::fs::write(&p, &b).expect("scratch file");
        let o = std::process::Command::new("timeout")
            .args(["-k", "1", "10"])
            .arg(std::env::current_exe().unwrap())
            .args(["exec-clear", p.to_str().unwrap()])
            .output()
            .expect("child");
        let _ = std::fs::remove_file(&p);
        if o.status.code() == Some(0) {
            return;
        }
        let e = String::from_utf8_lossy(&o.stderr).into_owned();
        let (what, k) = if o.status.code() == Some(124) {
            ("does not end", (key == "clear-dag").then_some(key))
        } else if e.contains("overflowed its stack") {
            ("exhausts the stack", (key != "" && key != "clear-dag").then_some(key))
        } else {
            ("crashes", None)
        };
        c.report_key(&["C01"], k, format!("clear_volatile_subkeys {what} ({key}): {:?} {}", o.status.code(), e.lines().find(|l| !l.is_empty()).unwrap_or("")), if b.len() < 100_000 { Some(&b) } else { None });
    })
}

/// Child process of `runaway`.
pub fn exec_clear(path: &str) -> i32 {
    let mut b = std::fs::read(path).unwrap();
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let mut h = nt_hive::Hive::without_validation(&mut b[..]).unwrap();
            let _ = h.clear_volatile_subkeys();
        })
        .unwrap()
        .join()
        .map_or(101, |_| 0)
}

/// The seeds with every key naming a volatile subkey list (in memory only, so without a meaning in
/// a file), and with one number in all such fields; their fields cut down to the volatile counts
/// and these lists.
pub fn with_lists() -> Vec<(&'static str, Img)> {
    let mut out = vec![];
    for (nm, s) in crate::faults::seeds() {
        for (v, all) in [(0x20u32, false), (0, true), (0x8000_0020, true), (u32::MAX, true)] {
            let mut s = s.clone();
            for f in s.fields.iter().filter(|f| f.kind == FK::Inert && f.name.starts_with("nk") && f.name != "nk.subkey_count") {
                if all || f.name == "nk.volatile_list" {
                    let w = if f.name == "nk.timestamp" { 8 } else { 4 };
                    s.bytes[f.pos..f.pos + w].copy_from_slice(&[v.to_le_bytes(), v.to_le_bytes()].concat()[..w]);
                }
            }
            s.fields.retain(|f| f.name == "nk.volatile_count" || f.name == "nk.volatile_list");
            out.push((nm, s));
        }
    }
    out
}
