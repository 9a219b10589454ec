//! C18: identity of handles and repeatability of reads.

use crate::digest as dg;
use crate::engine::*;
use crate::img::*;
use crate::model::*;
use crate::walk::{key_id, Kn, Kv};
use nt_hive::{Hive, KeyNode, KeyValue, KeyValueData, SubKeyNodes};
use zerocopy::SplitByteSlice;
use std::collections::{HashSet, VecDeque};
use std::sync::Arc;

const T: Tags = &["C18"];

struct H<X> {
    x: X,
    p: usize,
    via: String,
}

/// Every handle that can be obtained from the hive by every route, with the record it must denote.
fn collect<'h>(hive: &'h Hive<&'h [u8]>, img: &[u8], m: &Model, max: usize) -> (Vec<H<Kn<'h>>>, Vec<H<Kv<'h>>>) {
    let mut ks: Vec<H<Kn>> = vec![];
    let mut vs: Vec<H<Kv>> = vec![];
    let (Ok(root), Ok(mroot)) = (hive.root_key_node(), m.root()) else { return (ks, vs) };
    let mut q: VecDeque<(Kn, MKey, Option<String>)> = VecDeque::new();
    q.push_back((root.clone(), mroot, Some(String::new())));
    ks.push(H { x: root.clone(), p: mroot.p, via: "root_key_node".into() });
    if let Ok(r) = hive.root_key_node() {
        ks.push(H { x: r, p: mroot.p, via: "root_key_node again".into() });
    }
    let mut seen: HashSet<usize> = HashSet::new();
    seen.insert(mroot.p);
    let mut n = 0;
    while let Some((k, mk, path)) = q.pop_front() {
        n += 1;
        if n > max {
            break;
        }
        let at = mk.p;
        ks.push(H { x: k.clone(), p: mk.p, via: format!("clone of {at:#x}") });
        for e in ["", "\\"] {
            if let Some(Ok(s)) = k.subpath(e) {
                ks.push(H { x: s, p: mk.p, via: format!("subpath({e:?}) of {at:#x}") });
            }
        }
        if let Some(p) = &path {
            if let Some(Ok(s)) = root.subpath(p) {
                // a key of that path, possibly another one of the same name: identified by address
                if let Some(i) = key_id(img, &s) {
                    ks.push(H { x: s, p: i, via: format!("subpath({p:?}) of the root") });
                }
            }
        }
        // subkeys
        if let (Some(Ok(it)), Some(Ok(ms))) = (k.subkeys(), m.subkeys(mk)) {
            let clean = ms.ents.iter().all(|e| e.is_ok());
            let cap = 6;
            let mut push = |x: Option<nt_hive::Result<Kn<'h>>>, i: usize, via: &str, ks: &mut Vec<H<Kn<'h>>>| {
                if let (Some(Ok(x)), Some(Ok(want))) = (x, ms.ents.get(i)) {
                    ks.push(H { x, p: want.p, via: format!("{via} {i} of {at:#x}") });
                }
            };
            let len = ms.ents.len();
            if clean || !ms.root {
                let mut a = it.clone();
                for i in 0..len.min(cap) {
                    push(a.next(), i, "next", &mut ks);
                    push(it.clone().nth(i), i, "nth", &mut ks);
                    push(a.clone().next(), i + 1, "next of a clone", &mut ks);
                }
                if len > 0 && len < 1000 {
                    push(it.clone().last(), len - 1, "last", &mut ks);
                }
                match it.clone() {
                    SubKeyNodes::IndexRoot(mut x) => {
                        for i in 0..len.min(cap) {
                            push(x.next(), i, "IndexRoot next", &mut ks);
                        }
                    }
                    SubKeyNodes::Leaf(mut x) => {
                        for i in 0..len.min(cap) {
                            push(x.next(), i, "Leaf next", &mut ks);
                        }
                    }
                }
                // another handle of the same key, its own enumeration
                let k2 = k.clone();
                if let Some(Ok(it)) = k2.subkeys() {
                    for (i, x) in it.take(cap).enumerate() {
                        push(Some(x), i, "enumeration from a clone", &mut ks);
                    }
                }
            }
            let mut names = HashSet::new();
            let mut a = it.clone();
            for e in ms.ents.iter().take(cap) {
                let got = a.next();
                let Ok(ck) = e else { continue };
                let mut child_path = None;
                if let Ok(nm) = m.key_name(*ck) {
                    let (s, bad) = decode(&m.name_units(nm));
                    if !bad {
                        if let Look::OneOf(hits) = m.lookup_in(&ms, &s) {
                            if hits.len() == 1 && hits[0].p == ck.p {
                                let up: String = s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c }).collect();
                                for q in [&s, &up] {
                                    if !names.insert(q.clone()) {
                                        continue;
                                    }
                                    if let Some(Ok(x)) = k.subkey(q) {
                                        ks.push(H { x, p: ck.p, via: format!("subkey({q:?}) of {at:#x}") });
                                    }
                                    if !q.is_empty() && !q.contains('\\') {
                                        if let Some(Ok(x)) = k.subpath(q) {
                                            ks.push(H { x, p: ck.p, via: format!("subpath({q:?}) of {at:#x}") });
                                        }
                                    }
                                }
                            }
                        }
                        if let Some(p) = &path {
                            child_path = Some(format!("{p}\\{s}"));
                        }
                    }
                }
                if clean || !ms.root {
                    if let Some(Ok(x)) = got {
                        if seen.insert(ck.p) {
                            q.push_back((x, *ck, child_path));
                        }
                    }
                }
            }
        }
        // values
        if let (Some(Ok(it)), Some(Ok(mv))) = (k.values(), m.values(mk)) {
            let cap = 8;
            let len = mv.len();
            let mut push = |x: Option<nt_hive::Result<Kv<'h>>>, i: usize, via: &str| {
                if let (Some(Ok(x)), Some(Ok(want))) = (x, mv.get(i)) {
                    vs.push(H { x: x.clone(), p: want.p, via: format!("clone of {via} {i} of {at:#x}") });
                    vs.push(H { x, p: want.p, via: format!("{via} {i} of {at:#x}") });
                }
            };
            let mut a = it.clone();
            for i in 0..len.min(cap) {
                push(a.next(), i, "value next");
                push(it.clone().nth(i), i, "value nth");
            }
            if len > 0 && len < 1000 {
                push(it.clone().last(), len - 1, "value last");
            }
            let mut names = HashSet::new();
            for e in mv.iter().take(cap).flatten() {
                if let Ok(nm) = m.val_name(*e) {
                    let (s, bad) = decode(&m.name_units(nm));
                    if !bad && names.insert(s.clone()) {
                        if let (Some(Ok(x)), Some(Ok(w))) = (k.value(&s), m.value(mk, &s)) {
                            vs.push(H { x, p: w.p, via: format!("value({s:?}) of {at:#x}") });
                        }
                    }
                }
            }
        }
    }
    (ks, vs)
}

fn compare<X: PartialEq>(c: &mut Ctx, img: &[u8], what: &str, a: &[H<X>], b: &[H<X>], same_hive: bool) {
    let r = c.call(T, "comparing handles", 0, img, || {
        for x in a {
            for y in b {
                let want = same_hive && x.p == y.p;
                if (x.x == y.x) != want || (x.x != y.x) == want {
                    return Some(format!(
                        "{what}: [{}] (record {:#x}) == [{}] (record {:#x}) gives {}, != gives {}, expected {want}",
                        x.via,
                        x.p,
                        y.via,
                        y.p,
                        x.x == y.x,
                        x.x != y.x
                    ));
                }
            }
        }
        None
    });
    c.transitions += (a.len() * b.len()) as u64;
    if let Some(Some(msg)) = r {
        c.report(T, msg, Some(img));
    }
}

/// All pairs of handles obtainable from one hive, and across three openings.
pub fn identity(c: &mut Ctx, img: &[u8], max: usize) {
    if img.len() < BASE {
        return;
    }
    let m = Model::new(img);
    let copy = img.to_vec();
    let _ = quiet(|| {
        let (Ok(h1), Ok(h2), Ok(h3)) = (
            Hive::without_validation(img),
            Hive::without_validation(img),
            Hive::without_validation(&copy[..]),
        ) else {
            return;
        };
        let Ok((k1, v1)) = quiet(|| collect(&h1, img, &m, max)) else { return };
        let Ok((k2, v2)) = quiet(|| collect(&h2, img, &m, 3)) else { return };
        let Ok((k3, v3)) = quiet(|| collect(&h3, &copy, &m, 3)) else { return };
        c.states += (k1.len() + v1.len()) as u64;
        compare(c, img, "keys", &k1, &k1, true);
        compare(c, img, "values", &v1, &v1, true);
        for (k, v, w) in [(&k2, &v2, "two openings of one slice"), (&k3, &v3, "two openings of equal bytes")] {
            compare(c, img, w, &k1, k, false);
            compare(c, img, w, k, &k1, false);
            compare(c, img, w, &v1, v, false);
            compare(c, img, w, v, &v1, false);
        }
    });
}

fn digest_of(hive: &Hive<&[u8]>, base: *const u8, max: usize) -> (u64, u64, u64) {
    let mut d = dg::D::new(base);
    dg::digest(&mut d, hive, max);
    (d.core.0, d.alloc.0, d.ops)
}

/// Everything read twice from one hive, and once from a fresh one; then read, clear, read.
pub fn repeat(c: &mut Ctx, img: &[u8], max: usize) {
    if img.len() < BASE {
        return;
    }
    let r = quiet(|| {
        let h = Hive::without_validation(img).ok()?;
        let a = digest_of(&h, img.as_ptr(), max);
        let b = digest_of(&h, img.as_ptr(), max);
        let h2 = Hive::without_validation(img).ok()?;
        let d = digest_of(&h2, img.as_ptr(), max);
        Some((a, b, d))
    });
    if let Ok(Some((a, b, d))) = r {
        c.transitions += 3 * a.2;
        if a != b || a != d {
            c.report(T, format!("reading everything twice gives different results: same hive {}, fresh hive {}", a == b, a == d), Some(img));
        }
    }
    let (_, _, paths, cyc) = Model::new(img).reachable(100);
    if cyc || paths >= 100 {
        return;
    }
    let mut buf = img.to_vec();
    let base = buf.as_ptr();
    let r = quiet(|| {
        let mut h = Hive::without_validation(&mut buf[..]).ok()?;
        let mut d = dg::D::new(base);
        d.lite = true;
        dg::digest(&mut d, &h, max);
        let _ = h.clear_volatile_subkeys();
        let mut a = dg::D::new(base);
        a.lite = true;
        dg::digest(&mut a, &h, max);
        let mut b = dg::D::new(base);
        b.lite = true;
        dg::digest(&mut b, &h, max);
        Some((a.core.0, a.alloc.0, b.core.0, b.alloc.0, d.ops + a.ops + b.ops))
    });
    if let Ok(Some((a0, a1, b0, b1, ops))) = r {
        c.transitions += ops;
        let f = quiet(|| {
            let h = Hive::without_validation(&buf[..]).ok()?;
            let mut d = dg::D::new(base);
            d.lite = true;
            dg::digest(&mut d, &h, max);
            Some((d.core.0, d.alloc.0))
        });
        if (a0, a1) != (b0, b1) || f.is_ok_and(|f| f != Some((a0, a1))) {
            c.report(T, "after clearing volatile counts, reads of the hive differ from reads of a fresh hive on its bytes".into(), Some(img));
        }
    }
}

pub fn both(c: &mut Ctx, img: &[u8], max: usize) {
    identity(c, img, max);
    repeat(c, img, max);
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Name(usize),
    Class(usize),
    Sub(usize, String),
    Path(usize, String),
    Val(usize, String),
    Subs(usize),
    Vals(usize),
    VName(usize),
    VData(usize),
    VNum(usize),
    VStr(usize),
    VMulti(usize),
    Validate,
    Root,
    /// one step of a persistent iterator
    Step(usize),
    /// nth(1) of a persistent iterator
    Skip(usize),
    /// all that a clone of a persistent iterator delivers
    Rest(usize),
}

#[derive(Clone)]
pub enum It<'h, B: SplitByteSlice> {
    Keys(SubKeyNodes<'h, B>),
    Vals(nt_hive::KeyValues<'h, B>),
    Multi(nt_hive::RegMultiSZStrings<'h, B>),
    Seg(nt_hive::BigDataSlices<'h, B>),
}

pub struct Env<'h, B: SplitByteSlice> {
    hive: &'h Hive<B>,
    base: usize,
    keys: Vec<KeyNode<'h, B>>,
    vals: Vec<KeyValue<'h, B>>,
    pub its: Vec<It<'h, B>>,
}

fn res<X>(h: &mut dg::Fnv, r: Option<nt_hive::Result<X>>, f: impl FnOnce(&mut dg::Fnv, X)) {
    match r {
        None => h.u(7),
        Some(Ok(x)) => {
            h.u(1);
            f(h, x)
        }
        Some(Err(e)) => dg::err(h, &e),
    }
}

impl<'h, B: SplitByteSlice + Clone> Env<'h, B> {
    pub fn new(hive: &'h Hive<B>, base: usize) -> Env<'h, B> {
        let mut e = Env { hive, base, keys: vec![], vals: vec![], its: vec![] };
        if let Ok(r) = hive.root_key_node() {
            e.keys.push(r);
        }
        let mut i = 0;
        while i < e.keys.len() && e.keys.len() < 4 {
            if let Some(Ok(it)) = e.keys[i].subkeys() {
                for k in it.take(2).flatten() {
                    e.keys.push(k);
                }
            }
            i += 1;
        }
        for k in &e.keys {
            if let Some(Ok(it)) = k.values() {
                for v in it.flatten() {
                    if e.vals.len() < 4 {
                        e.vals.push(v);
                    }
                }
            }
        }
        for k in &e.keys {
            if let Some(Ok(it)) = k.subkeys() {
                e.its.push(It::Keys(it));
            }
            if let Some(Ok(it)) = k.values() {
                e.its.push(It::Vals(it));
            }
        }
        for v in &e.vals {
            if let Ok(KeyValueData::Big(it)) = v.data() {
                e.its.push(It::Seg(it));
            }
            if let Ok(it) = v.multi_string_data() {
                e.its.push(It::Multi(it));
            }
        }
        e
    }

    pub fn ops(&self, probes: &[&str]) -> Vec<Op> {
        let mut o = vec![Op::Validate, Op::Root];
        for k in 0..self.keys.len() {
            o.extend([Op::Name(k), Op::Class(k), Op::Subs(k), Op::Vals(k)]);
            for p in probes {
                o.push(Op::Sub(k, p.to_string()));
                o.push(Op::Val(k, p.to_string()));
            }
            o.push(Op::Path(k, "a\\b".into()));
            o.push(Op::Path(k, "b\\c".into()));
        }
        for v in 0..self.vals.len() {
            o.extend([Op::VName(v), Op::VData(v), Op::VNum(v), Op::VStr(v), Op::VMulti(v)]);
        }
        for i in 0..self.its.len() {
            o.extend([Op::Step(i), Op::Skip(i), Op::Rest(i)]);
        }
        o
    }

    /// Result and advance of the iterator concerned.
    fn run(&mut self, op: &Op) -> u64 {
        let mut its = std::mem::take(&mut self.its);
        let x = self.run_on(&mut its, op);
        self.its = its;
        x
    }

    pub fn run_on(&self, its: &mut [It<'h, B>], op: &Op) -> u64 {
        let mut h = dg::Fnv::new();
        let base = self.base;
        let kid = |h: &mut dg::Fnv, k: &KeyNode<'h, B>| dg::key_id(h, base, k);
        let vid = |h: &mut dg::Fnv, v: &KeyValue<'h, B>| dg::val_id(h, base, v);
        let h = &mut h;
        let nm = |h: &mut dg::Fnv, n: nt_hive::NtHiveNameString| {
            let s = n.to_string_lossy();
            h.u(n.len() as u64);
            h.b(s.as_bytes());
        };
        match op {
            Op::Validate => res(h, Some(self.hive.validate()), |_, _| ()),
            Op::Root => res(h, Some(self.hive.root_key_node()), |h, k| {
                h.u((k == self.keys[0]) as u64);
                kid(h, &k)
            }),
            Op::Name(k) => res(h, Some(self.keys[*k].name()), nm),
            Op::Class(k) => res(h, self.keys[*k].class_name(), nm),
            Op::Subs(k) => res(h, self.keys[*k].subkeys(), |h, it| {
                for x in it {
                    res(h, Some(x), |h, k| kid(h, &k));
                }
            }),
            Op::Vals(k) => res(h, self.keys[*k].values(), |h, it| {
                for x in it {
                    res(h, Some(x), |h, v| vid(h, &v));
                }
            }),
            Op::Sub(k, p) => res(h, self.keys[*k].subkey(p), |h, k| {
                kid(h, &k);
                for x in &self.keys {
                    h.u((*x == k) as u64);
                }
            }),
            Op::Path(k, p) => res(h, self.keys[*k].subpath(p), |h, k| kid(h, &k)),
            Op::Val(k, p) => res(h, self.keys[*k].value(p), |h, v| {
                vid(h, &v);
                for x in &self.vals {
                    h.u((*x == v) as u64);
                }
            }),
            Op::VName(v) => res(h, Some(self.vals[*v].name()), nm),
            Op::VData(v) => {
                h.u(self.vals[*v].data_size() as u64);
                res(h, Some(self.vals[*v].data()), |h, d| res(h, Some(d.into_vec()), |h, b| h.b(&b)))
            }
            Op::VNum(v) => {
                let v = &self.vals[*v];
                res(h, Some(v.data_type()), |h, t| h.u(t as u64));
                res(h, Some(v.dword_data()), |h, t| h.u(t as u64));
                res(h, Some(v.qword_data()), |h, t| h.u(t));
            }
            Op::VStr(v) => res(h, Some(self.vals[*v].string_data()), |h, s| h.b(s.as_bytes())),
            Op::VMulti(v) => res(h, Some(self.vals[*v].multi_string_data()), |h, it| {
                for s in it.take(50) {
                    res(h, Some(s), |h, s| h.b(s.as_bytes()));
                }
            }),
            Op::Step(i) | Op::Skip(i) => {
                let n = matches!(op, Op::Skip(_)) as usize;
                match &mut its[*i] {
                    It::Keys(it) => res(h, it.nth(n), |h, k| kid(h, &k)),
                    It::Vals(it) => res(h, it.nth(n), |h, v| vid(h, &v)),
                    It::Multi(it) => res(h, it.nth(n), |h, s| h.b(s.as_bytes())),
                    It::Seg(it) => res(h, it.nth(n), |h, s| h.u(s.as_ptr() as u64 ^ s.len() as u64)),
                }
            }
            Op::Rest(i) => match &its[*i] {
                It::Keys(it) => it.clone().for_each(|x| res(h, Some(x), |h, k| kid(h, &k))),
                It::Vals(it) => it.clone().for_each(|x| res(h, Some(x), |h, v| vid(h, &v))),
                It::Multi(it) => it.clone().take(50).for_each(|x| res(h, Some(x), |h, s| h.b(s.as_bytes()))),
                It::Seg(it) => it.clone().for_each(|x| res(h, Some(x), |h, s| h.u(s.as_ptr() as u64 ^ s.len() as u64))),
            },
        }
        h.0
    }
}

/// Which iterator position an operation depends on, and how far it moves it.
pub fn touches(op: &Op) -> Option<(usize, usize)> {
    match op {
        Op::Step(i) => Some((*i, 1)),
        Op::Skip(i) => Some((*i, 2)),
        Op::Rest(i) => Some((*i, 0)),
        _ => None,
    }
}

pub fn images(thorough: bool) -> Vec<(&'static str, Vec<u8>)> {
    let mut v: Vec<(&'static str, Vec<u8>)> = vec![];
    for (n, i) in crate::faults::seeds() {
        v.push((n, i.bytes));
    }
    v.push(("small-big", crate::refs::small_big().bytes));
    if thorough {
        v.push(("big", crate::faults::seeds_big()[0].1.bytes.clone()));
    }
    // damaged: an entry, a value, a sub-list
    for (nm, img) in crate::faults::seeds() {
        for f in &img.fields {
            if f.kind == FK::Sig && (f.name.starts_with("nk") || f.name.starts_with("vk") || f.name.starts_with("leaf")) {
                let mut b = img.bytes.clone();
                crate::faults::set(&mut b, f, 0x5858);
                v.push((nm, b));
            }
        }
    }
    // a shared child and a cycle through the root
    for cyc in 0..2 {
        let mut b = B::quiet();
        let c0 = b.nk(&Key::l("c").vol(5), 0);
        let v0 = b.val(&Val::new(Nm::l("a"), 4, Dat::Inline(vec![1, 0, 0, 0])));
        let l0 = b.vlist(&[v0, v0], 0);
        let p0 = b.nk(&Key::l("a").vol(6), 0);
        let p1 = b.nk(&Key::l("b").vol(7), 0);
        let r = b.nk(&Key::l("r").vol(8), 0);
        let l = b.leaf(Lt::Lf, &[(c0, *b"c\0\0\0", [0; 4])], 0);
        let l2 = b.leaf(Lt::Li, &[(c0, [0; 4], [0; 4]), (if cyc == 1 { r } else { c0 }, [0; 4], [0; 4])], 0);
        b.set_subs(p0, l, 1);
        b.set_subs(p1, l2, 2);
        b.set_vals(p0, l0, 2);
        b.set_vals(p1, l0, 1);
        let top = b.leaf(Lt::Lh, &[(p0, [0; 4], [0; 4]), (p1, [0; 4], [0; 4])], 0);
        b.set_subs(r, top, 2);
        v.push((if cyc == 1 { "cyclic" } else { "shared" }, b.finish_tight(r, 5).bytes));
    }
    v
}

/// All histories of reads up to a depth, each on a freshly opened hive, compared with the result
/// of the same read (at the same iterator position) without any history.
pub fn histories(name: &'static str, thorough: bool) -> Drv {
    let depth = if thorough { 4 } else { 3 };
    let probes: &'static [&'static str] = if thorough { &["a", "zz"] } else { &["a", "B", "m", "zz"] };
    let mut cases = vec![];
    let ims = Arc::new(images(thorough));
    for (i, (_, b)) in ims.iter().enumerate() {
        let n = {
            let Ok(Ok(h)) = quiet(|| Hive::without_validation(&b[..])) else { continue };
            quiet(|| Env::new(&h, b.as_ptr() as usize).ops(probes).len()).unwrap_or(0)
        };
        for f in 0..n {
            cases.push((i, f));
        }
    }
    let n = cases.len() as u64;
    Drv::new(
        name,
        format!("every sequence of {depth} reads (all operations on all handles, steps of persistent iterators and drains of their clones) on {} small intact, damaged, shared and cyclic hives", ims.len()),
        n,
        move |idx, c| {
            let (i, first) = cases[idx as usize];
            let (nm, b) = &ims[i];
            let b = &b[..];
            let base = b.as_ptr() as usize;
            let r = quiet(|| {
                let h = Hive::without_validation(b).ok()?;
                let ops = Env::new(&h, base).ops(probes);
                // baseline[op][position]
                let mut want: Vec<Vec<u64>> = vec![];
                for op in &ops {
                    let mut w = vec![];
                    let n = if touches(op).is_some() { 2 * depth + 1 } else { 1 };
                    for pos in 0..n {
                        let h = Hive::without_validation(b).ok()?;
                        let mut e = Env::new(&h, base);
                        for _ in 0..pos {
                            e.run(&Op::Step(touches(op).unwrap().0));
                        }
                        w.push(e.run(op));
                    }
                    want.push(w);
                }
                Some((ops, want))
            });
            let Ok(Some((ops, want))) = r else { return };
            c.sample(|| format!("{nm}: all sequences starting with {:?} over {} operations", ops[first], ops.len()));
            let n = ops.len();
            let mut seqs = 0u64;
            let mut seq = vec![0usize; depth];
            seq[0] = first;
            'seqs: loop {
                let r = quiet(|| {
                    let h = Hive::without_validation(b).ok()?;
                    let mut e = Env::new(&h, base);
                    let mut pos = vec![0usize; e.its.len()];
                    for (s, o) in seq.iter().enumerate() {
                        let op = &ops[*o];
                        let got = e.run(op);
                        let at = touches(op).map_or(0, |(i, _)| pos[i]);
                        if got != want[*o][at] {
                            return Some(s);
                        }
                        if let Some((i, n)) = touches(op) {
                            pos[i] += n;
                        }
                    }
                    None
                });
                seqs += 1;
                match r {
                    Ok(None) => (),
                    Ok(Some(s)) => {
                        let hist: Vec<String> = seq[..=s].iter().map(|o| format!("{:?}", ops[*o])).collect();
                        c.report(T, format!("{nm}: the last of these reads differs from the same read without history: {}", hist.join(", ")), Some(b));
                        break;
                    }
                    Err(e) => {
                        let hist: Vec<String> = seq.iter().map(|o| format!("{:?}", ops[*o])).collect();
                        c.report(T, format!("{nm}: panic only with history {}: {e}", hist.join(", ")), Some(b));
                        break;
                    }
                }
                let mut k = depth - 1;
                loop {
                    if k == 0 {
                        break 'seqs;
                    }
                    seq[k] += 1;
                    if seq[k] < n {
                        break;
                    }
                    seq[k] = 0;
                    k -= 1;
                }
            }
            c.states += seqs;
            c.transitions += seqs * depth as u64;
        },
    )
}

/// Hives made to confuse identities: empty names, equal records, records inside records.
pub fn tricky(name: &'static str) -> Drv {
    Drv::new(name, "hives with equal records, empty names, shared lists and values, a key that is its own ancestor, a record stored inside another one", 24, |idx, c| {
        let mut b = B::quiet();
        let emp = |v: u32| Key::new(if v & 1 == 0 { Nm::l("") } else { Nm::Raw(vec![], false) });
        let kn = |n: u32| match idx % 3 {
            0 => emp(0),
            1 => emp(n),
            _ => Key::l("same"),
        };
        let ks: Vec<u32> = (0..4).map(|n| b.nk(&kn(n), 0)).collect();
        let vn = || match idx % 2 {
            0 => Nm::l(""),
            _ => Nm::l("v"),
        };
        let vs: Vec<u32> = (0..3).map(|_| b.val(&Val::new(vn(), 4, Dat::Inline(vec![1, 2, 3, 4])))).collect();
        let vl = b.vlist(&[vs[0], vs[1], vs[0], vs[2]], 0);
        let vl2 = b.vlist(&[vs[2], vs[1]], 0);
        b.set_vals(ks[0], vl, 4);
        b.set_vals(ks[1], vl, 3);
        b.set_vals(ks[2], vl2, 2);
        let it = |o: u32| (o, [0u8; 4], [0u8; 4]);
        let l1 = b.leaf(Lt::Li, &[it(ks[1]), it(ks[2]), it(ks[1])], 0);
        let l2 = b.leaf(Lt::Lf, &[it(ks[3]), it(ks[2])], 0);
        match idx / 6 {
            0 => b.set_subs(ks[0], l1, 3),
            1 => {
                let r = b.ri(&[l1, l2, l1], 0);
                b.set_subs(ks[0], r, 8);
            }
            2 => {
                let l3 = b.leaf(Lt::Lh, &[it(ks[0]), it(ks[1])], 0);
                b.set_subs(ks[0], l3, 2);
                b.set_subs(ks[1], l1, 3);
            }
            _ => {
                // a whole key cell stored inside the name of another key
                let mut inner = B::quiet();
                let o = inner.nk(&Key::l("in"), 0) as usize;
                let cell = inner.buf[o..o + 88].to_vec();
                let mut nmv = vec![b'x'; 8 - (76 + 4) % 8 + 0];
                nmv.truncate((8 - (4 + 76) % 8) % 8);
                nmv.extend_from_slice(&cell);
                let host = b.nk(&Key::new(Nm::L(nmv)), 0);
                let inner_off = host + 4 + 76 + ((8 - (4 + 76) % 8) % 8) as u32;
                let l3 = b.leaf(Lt::Lf, &[it(host), it(inner_off), it(ks[3])], 0);
                b.set_subs(ks[0], l3, 3);
            }
        }
        let img = b.finish_tight(ks[0], 5);
        c.sample(|| format!("tricky hive {idx}"));
        shareable(c);
        both(c, &img.bytes, 24);
    })
}

/// Reads of two hives in turn: handles of the one never see the other.
pub fn two_hives(name: &'static str, thorough: bool) -> Drv {
    let probes: &'static [&'static str] = if thorough { &["a", "B", "m", "zz"] } else { &["a", "zz"] };
    let ims = Arc::new({
        let mut v: Vec<(&'static str, Vec<u8>)> = vec![];
        for (n, i) in crate::faults::seeds() {
            // the same records under other names and with other data
            let mut b = i.bytes.clone();
            for f in i.fields.iter().filter(|f| f.kind == FK::Len) {
                let p = match f.name {
                    x if x.starts_with("nk") && x.contains("name") && !x.contains("class") => f.pos + 4,
                    _ => continue,
                };
                if p < b.len() && b[p].is_ascii_alphabetic() {
                    b[p] = b[p].wrapping_add(1);
                }
            }
            v.push((n, i.bytes));
            v.push((n, b));
        }
        v
    });
    let np = ims.len();
    let n = (np * np) as u64;
    Drv::new(
        name,
        format!("every pair of {np} hives (some of the same shape with other names), opened side by side: every read of the one directly after every read of the other, from handles obtained before"),
        n,
        move |idx, c| {
            let (x, y) = (&ims[idx as usize / np].1[..], &ims[idx as usize % np].1[..]);
            c.sample(|| format!("hives {} and {}", idx as usize / np, idx as usize % np));
            let r = quiet(|| {
                let (hx, hy) = (Hive::without_validation(x).ok()?, Hive::without_validation(y).ok()?);
                let (mut ex, mut ey) = (Env::new(&hx, x.as_ptr() as usize), Env::new(&hy, y.as_ptr() as usize));
                let keep = |o: &Op| !matches!(o, Op::Step(_) | Op::Skip(_));
                let ox: Vec<Op> = ex.ops(probes).into_iter().filter(keep).collect();
                let oy: Vec<Op> = ey.ops(probes).into_iter().filter(keep).collect();
                let wx: Vec<u64> = ox.iter().map(|o| ex.run(o)).collect();
                let wy: Vec<u64> = oy.iter().map(|o| ey.run(o)).collect();
                // each alone, the other one closed
                let alone = |b: &[u8], ops: &[Op]| -> Option<Vec<u64>> {
                    let h = Hive::without_validation(b).ok()?;
                    let mut e = Env::new(&h, b.as_ptr() as usize);
                    Some(ops.iter().map(|o| e.run(o)).collect())
                };
                if alone(x, &ox)? != wx || alone(y, &oy)? != wy {
                    return Some(Err("reads differ while another hive is open".to_string()));
                }
                let mut n = 0u64;
                for (i, a) in ox.iter().enumerate() {
                    for (j, b) in oy.iter().enumerate() {
                        n += 2;
                        if ex.run(a) != wx[i] {
                            return Some(Err(format!("{a:?} differs after a read of the other hive")));
                        }
                        if ey.run(b) != wy[j] {
                            return Some(Err(format!("{b:?} differs after {a:?} of the other hive")));
                        }
                    }
                }
                if ex.keys.iter().any(|k| ey.keys.iter().any(|l| k == l)) || ex.vals.iter().any(|k| ey.vals.iter().any(|l| k == l)) {
                    return Some(Err("handles of two hives compare equal".to_string()));
                }
                Some(Ok(n))
            });
            match r {
                Ok(Some(Ok(n))) => {
                    c.states += n;
                    c.transitions += n;
                }
                Ok(Some(Err(e))) => c.report(T, e, Some(x)),
                Ok(None) => (),
                Err(e) => c.report(T, format!("panic with two hives open: {e}"), Some(x)),
            }
        },
    )
}

/// Hives, handles and iterators over plain bytes can be read from several threads.  (With that and
/// no `unsafe`, threads cannot meet any state that interleaved calls of one thread do not meet.)
fn shareable(c: &mut Ctx) {
    use std::marker::PhantomData;
    struct P<T>(PhantomData<T>);
    trait Not {
        fn both(&self) -> bool {
            false
        }
    }
    impl<T> Not for P<T> {}
    impl<T: Send + Sync> P<T> {
        fn both(&self) -> bool {
            true
        }
    }
    macro_rules! t {
        ($($t:ty),*) => {$(
            c.states += 1;
            if !P::<$t>(PhantomData).both() {
                c.report(&["C18"], format!("{} cannot be shared between threads", std::any::type_name::<$t>()), None);
            }
        )*};
    }
    type B = &'static [u8];
    t!(
        nt_hive::Hive<B>,
        nt_hive::Hive<&'static mut [u8]>,
        nt_hive::KeyNode<'static, B>,
        nt_hive::KeyValue<'static, B>,
        nt_hive::KeyValues<'static, B>,
        nt_hive::SubKeyNodes<'static, B>,
        nt_hive::LeafKeyNodes<'static, B>,
        nt_hive::IndexRootKeyNodes<'static, B>,
        nt_hive::BigDataSlices<'static, B>,
        nt_hive::RegMultiSZStrings<'static, B>,
        nt_hive::NtHiveNameString<'static>,
        nt_hive::NtHiveError
    );
    // the probe itself
    if P::<std::rc::Rc<u8>>(PhantomData).both() {
        c.report(&["C18"], "the thread probe does not work".into(), None);
    }
}

/// Names that careless summaries of a name confuse: all words over three letters up to a length
/// (anagrams, equal first and last letters, equal sums), words that collide under the
/// multiplicative hashes in use (31, 33, 37: also the hash of "lh" lists), and case.
fn confusable(len: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut i = 0;
    while i < v.len() {
        if v[i].len() < len {
            for c in ["A", "B", "C"] {
                let w = format!("{}{c}", v[i]);
                v.push(w);
            }
        }
        i += 1;
    }
    v.remove(0);
    v.extend(["B0", "AU", "B!", "A@", "B?", "A`", "XB0", "XAU", "B0B0", "AUAU", "B0AU", "\u{c4}", "\u{c4}A", "\u{141}", "\u{241}"].map(String::from));
    v.sort_by(|a, b| a.encode_utf16().cmp(b.encode_utf16()));
    v.dedup();
    v
}

/// Sequences of lookups on one hive, over names that are easily taken for one another.
pub fn lookup_pairs(name: &'static str, thorough: bool) -> Drv {
    let words = confusable(3);
    let n = words.len();
    let depth = if thorough { 3 } else { 2 };
    let fm = 5;
    Drv::new(
        name,
        format!(
            "two keys with {n} subkeys and values (or every other one of them) whose names are anagrams, share length, ends or hash; {fm} list formats: every sequence of {depth} lookups by subkey, subpath and value on both keys, the names in separate strings and in one reused buffer"
        ),
        (fm * 2 * n) as u64,
        move |idx, c| {
            let (fmt, reuse, first) = (idx as usize % fm, idx as usize / fm % 2 == 1, idx as usize / fm / 2);
            let mut b = B::quiet();
            let nm = |s: &str| if s.is_ascii() { Nm::l(s) } else { Nm::u(s) };
            let root = b.nk(&Key::l("r"), 0);
            let mut tops = vec![];
            // want[key][kind][word]
            let mut subs = vec![vec![None; n]; 2];
            let mut vals = vec![vec![None; n]; 2];
            for k in 0..2 {
                let top = b.nk(&Key::l(if k == 0 { "p" } else { "q" }), 0);
                let (mut s, mut v) = (vec![], vec![]);
                for (i, w) in words.iter().enumerate() {
                    if k == 0 || i % 2 == 0 {
                        let hash = w.encode_utf16().fold(0u32, |h, u| h.wrapping_mul(37).wrapping_add(u as u32)).to_le_bytes();
                        let mut tag = [0u8; 4];
                        tag.iter_mut().zip(w.bytes()).for_each(|(t, x)| *t = x);
                        let o = b.nk(&Key::new(nm(&w.to_lowercase())), top);
                        s.push((o, if fmt == 0 { tag } else { hash }, hash));
                        subs[k][i] = Some(o as usize + BASE + 4);
                    }
                    if k == 0 || i % 2 == 1 {
                        let o = b.val(&Val::new(nm(w), 4, Dat::Inline(vec![i as u8, 0, 0, 0])));
                        v.push(o);
                        vals[k][i] = Some(o as usize + BASE + 4);
                    }
                }
                let ns = s.len();
                let l = match fmt {
                    0 => b.leaf(Lt::Lf, &s, 0),
                    1 => b.leaf(Lt::Lh, &s, 0),
                    2 => b.leaf(Lt::Li, &s, 0),
                    _ => {
                        let step = if fmt == 3 { ns / 2 } else { 2 };
                        let ls: Vec<u32> = s.chunks(step.max(1)).map(|x| b.leaf(Lt::Lh, x, 0)).collect();
                        b.ri(&ls, 0)
                    }
                };
                b.set_subs(top, l, ns as u32);
                let vl = b.vlist(&v, 0);
                b.set_vals(top, vl, v.len() as u32);
                tops.push(top);
            }
            let l = b.leaf(Lt::Lh, &[(tops[0], [0; 4], [0; 4]), (tops[1], [0; 4], [0; 4])], 0);
            b.set_subs(root, l, 2);
            let img = b.finish_tight(root, 5).bytes;
            let img = &img[..];
            let mut ops: Vec<(usize, usize, usize, Option<usize>)> = vec![];
            for k in 0..2 {
                for i in 0..n {
                    ops.push((0, k, i, subs[k][i]));
                    if thorough && i % 3 != 0 {
                        continue;
                    }
                    ops.push((1, k, i, subs[k][i]));
                    ops.push((2, k, i, vals[k][i]));
                }
            }
            let paths: Vec<Vec<String>> = ["p", "q"].iter().map(|p| words.iter().map(|w| format!("{p}\\{w}")).collect()).collect();
            c.sample(|| format!("list format {fmt}, reused buffer {reuse}: all sequences of {depth} lookups that start with {:?}", words[first]));
            let mut text = String::with_capacity(64);
            let mut run = |root: &Kn, keys: &[Kn], o: &(usize, usize, usize, Option<usize>)| -> Result<Option<usize>, String> {
                let (kind, k, i, _) = *o;
                let w = if kind == 1 { &paths[k][i] } else { &words[i] };
                text.clear();
                text.push_str(w);
                let w: &str = if reuse { &text } else { w };
                let e = |e: nt_hive::NtHiveError| format!("{e:?}");
                Ok(match kind {
                    0 => keys[k].subkey(w).transpose().map_err(e)?.map(|x| key_id(img, &x).unwrap_or(0)),
                    1 => root.subpath(w).transpose().map_err(e)?.map(|x| key_id(img, &x).unwrap_or(0)),
                    _ => keys[k].value(w).transpose().map_err(e)?.map(|x| crate::walk::val_id(img, &x).unwrap_or(0)),
                })
            };
            let mut seq = vec![0usize; depth];
            let mut seqs = 0u64;
            let starts: Vec<usize> = (0..ops.len()).filter(|o| ops[*o].2 == first).collect();
            for s in starts {
                seq.iter_mut().for_each(|x| *x = 0);
                seq[0] = s;
                'seqs: loop {
                    let r = quiet(|| {
                        let h = Hive::without_validation(img).map_err(|e| format!("{e:?}"))?;
                        let root = h.root_key_node().map_err(|e| format!("{e:?}"))?;
                        let mut keys = vec![];
                        for k in root.subkeys().ok_or("no subkeys")?.map_err(|e| format!("{e:?}"))? {
                            keys.push(k.map_err(|e| format!("{e:?}"))?);
                        }
                        for (j, o) in seq.iter().enumerate() {
                            let got = run(&root, &keys, &ops[*o])?;
                            if got != ops[*o].3 {
                                return Err(format!("lookup {j} gives record {got:x?} instead of {:x?}", ops[*o].3));
                            }
                        }
                        Ok::<(), String>(())
                    });
                    seqs += 1;
                    let bad = match r {
                        Ok(Ok(())) => None,
                        Ok(Err(e)) | Err(e) => Some(e),
                    };
                    if let Some(e) = bad {
                        let hist: Vec<String> = seq
                            .iter()
                            .map(|o| format!("{} {:?} of {}", ["subkey", "subpath", "value"][ops[*o].0], words[ops[*o].2], ["p", "q"][ops[*o].1]))
                            .collect();
                        c.report(T, format!("list format {fmt}, reused buffer {reuse}: {e}, in the history {}", hist.join(", ")), Some(img));
                        return;
                    }
                    let mut k = depth - 1;
                    loop {
                        if k == 0 {
                            break 'seqs;
                        }
                        seq[k] += 1;
                        if seq[k] < ops.len() {
                            break;
                        }
                        seq[k] = 0;
                        k -= 1;
                    }
                }
            }
            c.states += seqs;
            c.transitions += seqs * depth as u64;
        },
    )
}
