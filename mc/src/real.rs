//! The hive in /repo/testdata (written by Windows), as an image with all its structural fields
//! located, and families of hives derived from it.

use crate::cross;
use crate::engine::*;
use crate::faults::*;
use crate::img::*;
use crate::walk::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

/// Locates cells and structural fields of an undamaged hive, whoever wrote it.
pub fn annotate(b: &[u8]) -> Img {
    let w = |p: usize| u32::from_le_bytes(b[p..p + 4].try_into().unwrap());
    let h = |p: usize| u16::from_le_bytes([b[p], b[p + 1]]) as usize;
    let mut cells: BTreeMap<u32, u32> = BTreeMap::new();
    let mut fields: BTreeMap<usize, Field> = BTreeMap::new();
    let mut f = |pos: usize, width: usize, kind: FK, name: &'static str| {
        fields.insert(pos, Field { pos, width, kind, name });
    };
    f(36, 4, FK::Ref, "header.root");
    // (offset, what)
    let mut todo: Vec<(u32, &'static str, u32)> = vec![(w(36), "nk", 0)];
    let mut seen = BTreeSet::new();
    while let Some((o, what, n)) = todo.pop() {
        if !seen.insert(o) {
            continue;
        }
        let at = o as usize + BASE;
        let p = at + 4;
        cells.insert(o, (w(at) as i32).unsigned_abs());
        match what {
            "nk" => {
                f(at, 4, FK::CellSize, "nk.cell");
                for (r, n, k, name) in [
                    (0, 2, FK::Sig, "nk.sig"),
                    (2, 2, FK::Flags, "nk.flags"),
                    (4, 4, FK::Inert, "nk.timestamp"),
                    (12, 4, FK::Inert, "nk.spare"),
                    (16, 4, FK::Inert, "nk.parent"),
                    (20, 4, FK::Inert, "nk.subkey_count"),
                    (24, 4, FK::Volatile, "nk.volatile_count"),
                    (28, 4, FK::Ref, "nk.subkeys_list"),
                    (32, 4, FK::Inert, "nk.volatile_list"),
                    (36, 4, FK::Count, "nk.value_count"),
                    (40, 4, FK::Ref, "nk.values_list"),
                    (44, 4, FK::Inert, "nk.security"),
                    (48, 4, FK::Ref, "nk.class"),
                    (52, 4, FK::Inert, "nk.max_subkey_name"),
                    (56, 4, FK::Inert, "nk.max_class"),
                    (60, 4, FK::Inert, "nk.max_value_name"),
                    (64, 4, FK::Inert, "nk.max_data"),
                    (68, 4, FK::Inert, "nk.work_var"),
                    (72, 2, FK::Len, "nk.name_len"),
                    (74, 2, FK::Len, "nk.class_len"),
                ] {
                    f(p + r, n, k, name);
                }
                for (r, what, n) in [(28, "list", 0), (40, "vlist", w(p + 36)), (48, "class", 0)] {
                    if w(p + r) != NONE {
                        todo.push((w(p + r), what, n));
                    }
                }
            }
            "list" => {
                let ri = &b[p..p + 2] == b"ri";
                let step = if matches!(&b[p..p + 2], b"lf" | b"lh") { 8 } else { 4 };
                f(at, 4, FK::CellSize, if ri { "ri.cell" } else { "leaf.cell" });
                f(p, 2, FK::Sig, if ri { "ri.sig" } else { "leaf.sig" });
                f(p + 2, 2, FK::Count, if ri { "ri.count" } else { "leaf.count" });
                for i in 0..h(p + 2) {
                    let q = p + 4 + i * step;
                    f(q, 4, FK::Ref, if ri { "ri.item" } else { "leaf.item" });
                    if step == 8 {
                        f(q + 4, 4, FK::Inert, "leaf.hint");
                    }
                    todo.push((w(q), if ri { "list" } else { "nk" }, 0));
                }
            }
            "vlist" => {
                f(at, 4, FK::CellSize, "vlist.cell");
                for i in 0..n as usize {
                    f(p + 4 * i, 4, FK::Ref, "vlist.item");
                    todo.push((w(p + 4 * i), "vk", 0));
                }
            }
            "vk" => {
                f(at, 4, FK::CellSize, "vk.cell");
                for (r, n, k, name) in [
                    (0, 2, FK::Sig, "vk.sig"),
                    (2, 2, FK::Len, "vk.name_len"),
                    (4, 4, FK::DataSize, "vk.data_size"),
                    (8, 4, FK::Ref, "vk.data"),
                    (12, 4, FK::Type, "vk.type"),
                    (16, 2, FK::Flags, "vk.flags"),
                    (18, 2, FK::Inert, "vk.spare"),
                ] {
                    f(p + r, n, k, name);
                }
                let n = w(p + 4);
                if n >> 31 == 0 {
                    todo.push((w(p + 8), if n as usize <= SEG || w(24) < 4 { "data" } else { "db" }, 0));
                }
            }
            "db" => {
                f(at, 4, FK::CellSize, "db.cell");
                f(p, 2, FK::Sig, "db.sig");
                f(p + 2, 2, FK::Count, "db.count");
                f(p + 4, 4, FK::Ref, "db.list");
                todo.push((w(p + 4), "dblist", h(p + 2) as u32));
            }
            "dblist" => {
                f(at, 4, FK::CellSize, "db.list.cell");
                for i in 0..n as usize {
                    f(p + 4 * i, 4, FK::Ref, "db.item");
                    todo.push((w(p + 4 * i), "seg", 0));
                }
            }
            "class" => f(at, 4, FK::CellSize, "class.cell"),
            "data" => f(at, 4, FK::CellSize, "data.cell"),
            _ => f(at, 4, FK::CellSize, "seg.cell"),
        }
    }
    Img { bytes: b.to_vec(), fields: fields.into_values().collect(), cells: cells.into_iter().collect(), used_end: b.len() }
}

pub fn hive() -> Img {
    annotate(include_bytes!("testhive.bin"))
}

/// The builder's own map of an image it wrote must be the one that `annotate` finds.
pub fn self_check() -> Result<(), String> {
    for (n, i) in seeds().into_iter().chain(seeds_big()) {
        let a = annotate(&i.bytes);
        let key = |f: &Field| (f.pos, f.width, f.kind, f.name);
        let x: BTreeSet<_> = a.fields.iter().map(key).map(|k| format!("{k:?}")).collect();
        let y: BTreeSet<_> = i.fields.iter().map(key).map(|k| format!("{k:?}")).collect();
        if x != y {
            return Err(format!("{n}: {:?}", x.symmetric_difference(&y).take(5).collect::<Vec<_>>()));
        }
    }
    Ok(())
}

/// The whole walk over the hive as it is.
pub fn intact(name: &'static str, cfg: Cfg) -> Drv {
    let img = hive();
    let cfg = Cfg { max_keys: 1 << 20, ..cfg };
    Drv::new(name, format!("the hive of the repository's tests as Windows wrote it ({} bytes, {} cells, {} fields)", img.bytes.len(), img.cells.len(), img.fields.len()), 1, move |_, c| {
        c.sample(|| "testdata/testhive".into());
        walk(c, &img.bytes, &cfg);
    })
}

/// Fields to damage: all, or of each sort of field the first and last ones and a few in between.
fn chosen(img: &Img, all: bool, pick: impl Fn(&Field) -> bool) -> Vec<usize> {
    let mut by: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
    for (i, f) in img.fields.iter().enumerate() {
        if pick(f) {
            by.entry(f.name).or_default().push(i);
        }
    }
    let mut v: Vec<usize> = by
        .values()
        .flat_map(|l| {
            let step = if all { 1 } else { (l.len() / 8).max(1) };
            let mut x: Vec<usize> = l.iter().step_by(step).copied().collect();
            x.push(l[l.len() - 1]);
            x
        })
        .collect();
    v.sort();
    v.dedup();
    v
}

/// The image with only a few cells listed as interesting targets: the first of each sort.
fn few_targets(img: &Img) -> Img {
    let mut kinds = BTreeSet::new();
    let mut t = img.clone();
    t.cells.retain(|c| {
        let f = img.fields.iter().find(|f| f.pos == c.0 as usize + BASE).unwrap();
        kinds.insert(f.name)
    });
    t
}

/// The same as items for other configurations and for the tool.
pub fn items(all: bool, most: usize) -> Vec<cross::Item> {
    let img = hive();
    let t = few_targets(&img);
    let a = Arc::new(img.bytes.clone());
    let mut v = vec![];
    for j in chosen(&img, all, |f| f.kind != FK::Inert) {
        let f = &img.fields[j];
        let x = interesting(&t, f, true);
        let step = (x.len() / most).max(1);
        for x in x.into_iter().step_by(step) {
            v.push(cross::Item::patched(format!("testhive: {} at {:#x} = {x:#x}", f.name, f.pos), a.clone(), f.pos, f.width, x));
        }
    }
    v
}

/// Every interesting value of the fields of the hive.
pub fn faults(name: &'static str, cfg: Cfg, all: bool, pick: impl Fn(&Field) -> bool) -> Drv {
    let img = hive();
    let cfg = Cfg { max_keys: 1 << 20, ..cfg };
    let t = few_targets(&img);
    let fs = chosen(&img, all, pick);
    let mut cases: Vec<(u32, u32)> = vec![];
    for j in &fs {
        for v in interesting(&t, &img.fields[*j], true) {
            cases.push((*j as u32, v));
        }
    }
    let n = cases.len() as u64;
    let img = Arc::new(img);
    Drv::new(name, format!("the hive of the repository's tests: {} of its {} structural fields x all interesting values", fs.len(), img.fields.len()), n, move |i, c| {
        let (j, v) = cases[i as usize];
        let f = &img.fields[j as usize];
        let mut b = img.bytes.clone();
        set(&mut b, f, v);
        c.sample(|| format!("testhive: {} at {:#x} = {v:#x}", f.name, f.pos));
        walk(c, &b, &cfg);
    })
    .chunk(4)
}
