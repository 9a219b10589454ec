//! C15: exhaustive exploration of iterator call histories.

use crate::engine::*;
use crate::faults::u16s;
use crate::img::*;
use crate::lists::*;
use crate::model::*;
use crate::vals::with_values;
use crate::walk::*;
use nt_hive::{Hive, KeyValueData, SubKeyNodes};

const T: Tags = &["C15"];

struct Ex2<'a, I: Iterator> {
    what: &'a str,
    img: &'a [u8],
    /// number of items
    n: usize,
    exact: bool,
    len: Option<fn(&I) -> usize>,
    /// does this item equal item i of the reference?
    same: &'a dyn Fn(&I::Item, usize) -> bool,
}

/// Skip counts that matter at `r` remaining items: small ones and those whose byte offset
/// (times 4, 8 or 16344) wraps around to a small number.
fn skips(r: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, r.saturating_sub(1), r, r + 1];
    for m in [4u128, 8, SEG as u128] {
        let k = ((1u128 << 64) / m) as usize;
        v.extend([k, k + 1, k + 2]);
    }
    v.extend([1usize << 30, 1 << 32, 1 << 63, usize::MAX, usize::MAX - 1]);
    v.sort();
    v.dedup();
    v
}

/// The few operations used for branching.
fn ops(r: usize) -> Vec<Option<usize>> {
    let mut v: Vec<Option<usize>> = vec![None, Some(0), Some(1), Some(2)];
    v.extend([Some(r.saturating_sub(1)), Some(r), Some(usize::MAX)]);
    v.sort();
    v.dedup();
    v
}

impl<I> Ex2<'_, I>
where
    I: Iterator + Clone,
{
    fn fail(&self, c: &mut Ctx, hist: &[Option<usize>], m: String) {
        let h: Vec<String> = hist
            .iter()
            .map(|o| match o {
                None => "next".into(),
                Some(k) => format!("nth({k})"),
            })
            .collect();
        c.report(
            T,
            format!("{} of {} items after [{}]: {m}", self.what, self.n, h.join(", ")),
            Some(self.img),
        );
    }

    fn item(&self, g: &Option<I::Item>, want: Option<usize>) -> bool {
        match (g, want.filter(|w| *w < self.n)) {
            (None, None) => true,
            (Some(g), Some(w)) => (self.same)(g, w),
            _ => false,
        }
    }

    /// Everything that can be observed without changing the iterator.
    fn observe(&self, c: &mut Ctx, it: &I, p: usize, hist: &[Option<usize>], deep: bool) {
        let r = self.n - p;
        c.states += 1;
        c.outcome((self.what.len() * 1000 + self.n.min(99) * 100 + r.min(99)) as u64);
        if let Some((lo, hi)) = c.call(T, self.what, 0, self.img, || it.size_hint()) {
            if lo > r || hi.map_or(false, |h| h < r) || (self.exact && (lo != r || hi != Some(r))) {
                self.fail(c, hist, format!("size_hint {lo},{hi:?} with {r} items left"));
            }
        }
        if let Some(len) = self.len {
            if let Some(l) = c.call(T, self.what, 0, self.img, || len(it)) {
                if l != r {
                    self.fail(c, hist, format!("len {l} with {r} items left"));
                }
            }
        }
        if let Some(k) = c.call(T, self.what, 0, self.img, || it.clone().count()) {
            if k != r {
                self.fail(c, hist, format!("count {k} with {r} items left"));
            }
        }
        if let Some(g) = c.call(T, self.what, 0, self.img, || it.clone().last()) {
            if !self.item(&g, if r == 0 { None } else { Some(self.n - 1) }) {
                self.fail(c, hist, format!("last is {} with {r} items left", if g.is_some() { "another item" } else { "nothing" }));
            }
        }
        if !deep {
            return;
        }
        // stepping through everything
        let all = c.call(T, self.what, 0, self.img, || {
            let mut v = vec![];
            it.clone().take(self.n + 2).for_each(|x| v.push(x));
            v
        });
        if let Some(v) = all {
            if v.len() != r || v.iter().enumerate().any(|(i, x)| !(self.same)(x, p + i)) {
                self.fail(c, hist, format!("stepping gives {} items instead of the {r} left, or others", v.len()));
            }
        }
        let v = c.call(T, self.what, 0, self.img, || it.clone().fold(0usize, |a, _| a + 1));
        if v.map_or(false, |v| v != r) {
            self.fail(c, hist, format!("fold sees {v:?} items of {r}"));
        }
        for k in skips(r) {
            let g = c.call(T, self.what, 0, self.img, || {
                let mut j = it.clone();
                let a = j.nth(k);
                let b = j.next();
                let sh = j.size_hint();
                let n = j.by_ref().take(self.n + 2).count();
                (a, b, sh, n, j.next().is_some(), j.nth(k).is_some(), j.next().is_some())
            });
            if let Some((a, b, sh, n, x, y, z)) = g {
                let at = p.checked_add(k);
                if !self.item(&a, at) {
                    self.fail(c, hist, format!("nth({k}) with {r} items left gives {}", if a.is_some() { "a wrong item" } else { "nothing" }));
                } else if !self.item(&b, at.and_then(|a| a.checked_add(1))) {
                    self.fail(c, hist, format!("next after nth({k}) with {r} items left gives {}", if b.is_some() { "a wrong item" } else { "nothing" }));
                } else {
                    let left = r.saturating_sub(k.saturating_add(2));
                    if n != left || sh.0 > left || sh.1.map_or(false, |h| h < left) || (self.exact && sh != (left, Some(left))) {
                        self.fail(c, hist, format!("after nth({k}) and next: {n} items, size_hint {sh:?}, {left} are left"));
                    } else if x || y || z {
                        self.fail(c, hist, format!("after nth({k}): delivers items after its end"));
                    }
                }
            }
            let g = c.call(T, self.what, 0, self.img, || it.clone().skip(k).next());
            if let Some(g) = g {
                if !self.item(&g, p.checked_add(k)) {
                    self.fail(c, hist, format!("skip({k}).next() with {r} items left"));
                }
            }
        }
        for st in [1usize, 2, 3] {
            let g = c.call(T, self.what, 0, self.img, || it.clone().step_by(st).take(self.n + 2).collect::<Vec<_>>());
            if let Some(g) = g {
                let want: Vec<usize> = (p..self.n).step_by(st).collect();
                if g.len() != want.len() || g.iter().zip(&want).any(|(a, b)| !(self.same)(a, *b)) {
                    self.fail(c, hist, format!("step_by({st}) gives {} items, {} expected, or wrong ones", g.len(), want.len()));
                }
            }
        }
    }

    fn dfs(&self, c: &mut Ctx, it: &I, p: usize, depth: usize, hist: &mut Vec<Option<usize>>) {
        self.observe(c, it, p, hist, hist.len() <= 2);
        if depth == 0 || c.case_viols > 3 {
            return;
        }
        let r = self.n - p;
        for o in ops(r) {
            // the original goes on, the clone stays behind: both must be unaffected by each other
            let got = c.call(T, self.what, 0, self.img, || {
                let mut j = it.clone();
                let g = match o {
                    None => j.next(),
                    Some(k) => j.nth(k),
                };
                (g, j)
            });
            let Some((g, j)) = got else { continue };
            let at = p.checked_add(o.unwrap_or(0)).filter(|a| *a < self.n);
            hist.push(o);
            if !self.item(&g, at) {
                self.fail(c, hist, format!("the last call gives {}", if g.is_some() { "a wrong item" } else { "nothing" }));
            } else {
                let np = at.map_or(self.n, |a| a + 1);
                self.dfs(c, &j, np, depth - 1, hist);
            }
            hist.pop();
        }
        // a clone taken before is where it was
        if let Some((lo, _)) = c.call(T, self.what, 0, self.img, || it.size_hint()) {
            let g = c.call(T, self.what, 0, self.img, || it.clone().next());
            if self.exact && lo != r || g.map_or(false, |g| !self.item(&g, Some(p))) {
                self.fail(c, hist, "a clone's calls changed the original".into());
            }
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn explore<I>(
    c: &mut Ctx,
    what: &str,
    img: &[u8],
    it: &I,
    n: usize,
    exact: bool,
    len: Option<fn(&I) -> usize>,
    depth: usize,
    same: &dyn Fn(&I::Item, usize) -> bool,
) where
    I: Iterator + Clone,
{
    let e = Ex2 { what, img, n, exact, len, same };
    e.dfs(c, it, 0, depth, &mut vec![]);
}

fn subkeys(c: &mut Ctx, img: &[u8], depth: usize) {
    let m = Model::new(img);
    let h = Hive::without_validation(img).unwrap();
    let Some(Ok(root)) = c.call(T, "root_key_node", 36, img, || h.root_key_node()) else { return };
    let Ok(mroot) = m.root() else { return };
    let Some(Ok(s)) = m.subkeys(mroot) else { return };
    let Some(Some(Ok(it))) = c.call(T, "subkeys", mroot.p, img, || root.subkeys()) else {
        c.report(T, "no iterator over the subkeys".into(), Some(img));
        return;
    };
    let n = s.ents.len();
    let ok = |g: bool, id: Option<usize>, i: usize| match &s.ents[i] {
        Ok(k) => g && id == Some(k.p),
        Err(_) => !g,
    };
    explore(c, "SubKeyNodes", img, &it, n, false, None, depth, &|g, i| match g {
        Ok(k) => ok(true, key_id(img, k), i),
        Err(_) => ok(false, None, i),
    });
    match &it {
        SubKeyNodes::Leaf(l) => explore(c, "LeafKeyNodes", img, l, n, true, Some(|x| x.len()), depth, &|g, i| match g {
            Ok(k) => ok(true, key_id(img, k), i),
            Err(_) => ok(false, None, i),
        }),
        SubKeyNodes::IndexRoot(l) => explore(c, "IndexRootKeyNodes", img, l, n, false, None, depth, &|g, i| match g {
            Ok(k) => ok(true, key_id(img, k), i),
            Err(_) => ok(false, None, i),
        }),
    }
}

/// Subkey iterators over every list structure with every placement of damage.
pub fn subkey_histories(name: &'static str, max: usize, depth: usize) -> Drv {
    let mut cases = vec![];
    for n in 0..=max {
        for st in structures(n, 4) {
            if st == St::NoList {
                continue;
            }
            for mask in 0..3u32.pow(n as u32) {
                cases.push((n, st.clone(), mask));
            }
        }
    }
    let nn = cases.len() as u64;
    Drv::new(
        name,
        format!("every subkey list structure of 0..={max} entries, each its own key, damaged or the one key that others refer to as well ({nn} lists): all call histories of depth {depth} over next / nth(0,1,2,rest-1,rest,MAX), at each state size_hint, len, count, last; at depth <= 2 also all wrap-prone skips, skip, step_by, fold, calls after the end"),
        nn,
        move |idx, c| {
            let (n, st, mask) = &cases[idx as usize];
            c.sample(|| format!("{n} entries as {}, entry states {mask} in base 3", stname(st)));
            let mut b = B::quiet();
            let bad = bad_keys(&mut b);
            let shared = b.nk(&Key::l("shared"), 0);
            let ents = (0..*n)
                .map(|j| match mask / 3u32.pow(j as u32) % 3 {
                    0 => Ent::K(Key::l(&format!("k{j}"))),
                    1 => Ent::Off(bad[j % bad.len()]),
                    _ => Ent::Off(shared),
                })
                .collect();
            let mut root = Key::l("R");
            root.subs = store(st, ents);
            let o = b.key(&root, 0);
            let img = b.finish_tight(o, 5);
            subkeys(c, &img.bytes, depth);
        },
    )
}

/// Two-level indexes with damaged and empty sub-lists.
pub fn sublist_histories(name: &'static str, max: usize, depth: usize) -> Drv {
    let n: u64 = (0..=max).map(|m| 11u64.pow(m as u32)).sum();
    Drv::new(
        name,
        format!("two-level index of 0..={max} sub-lists, each a leaf of 1..=3 keys damaged in one of 7 ways, or the one leaf that others refer to as well, all combinations: all call histories of depth {depth}"),
        n,
        move |idx, c| {
            let mut i = idx;
            let mut m = 0;
            while i >= 11u64.pow(m as u32) {
                i -= 11u64.pow(m as u32);
                m += 1;
            }
            c.sample(|| format!("{m} sub-lists, combination {i}"));
            let mut b = B::quiet();
            let hidden = b.nk(&Key::l("zzhidden"), 0);
            let bad = bad_lists(&mut b, hidden);
            let (s1, s2) = (b.nk(&Key::l("s1"), 0), b.nk(&Key::l("s2"), 0));
            let shared = b.leaf(Lt::Lf, &[(s1, *b"s1\0\0", [0; 4]), (s2, *b"s2\0\0", [0; 4])], 0);
            let mut subs = vec![];
            let mut kn = 0;
            for j in 0..m {
                let k = (i % 11) as usize;
                i /= 11;
                if k < 3 {
                    let mut e = vec![];
                    for _ in 0..=k {
                        e.push(Ent::K(Key::l(&format!("k{}", (b'a' + kn) as char))));
                        kn += 1;
                    }
                    subs.push(SubList::Leaf(LTS[j % 3], e));
                } else if k == 10 {
                    subs.push(SubList::Off(shared));
                } else {
                    subs.push(SubList::Off(bad[k - 3]));
                }
            }
            let mut root = Key::l("R");
            root.subs = Subs::Root(subs);
            let o = b.key(&root, 0);
            let img = b.finish_tight(o, 5);
            subkeys(c, &img.bytes, depth);
        },
    )
}

/// Value list iterators.
pub fn value_histories(name: &'static str, max: usize, depth: usize) -> Drv {
    let mut cases = vec![];
    for n in 0..=max {
        for mask in 0..3u32.pow(n as u32) {
            for slack in [0usize, 4, 20] {
                cases.push((n, mask, slack));
            }
        }
    }
    let nn = cases.len() as u64;
    Drv::new(
        name,
        format!("value lists of 0..={max} entries, each its own value, damaged or the one value that others refer to as well, list cell with 0, 4 or 20 spare bytes: all call histories of depth {depth}"),
        nn,
        move |idx, c| {
            let (n, mask, slack) = cases[idx as usize];
            c.sample(|| format!("{n} values, states {mask} in base 3, spare {slack}"));
            let mut b = B::quiet();
            let bad = bad_keys(&mut b);
            let root = b.nk(&Key::l("R"), 0);
            let mut offs = vec![];
            let shared = b.val(&Val::new(Nm::l("shared"), 1, Dat::Inline(vec![])));
            for j in 0..n {
                offs.push(match mask / 3u32.pow(j as u32) % 3 {
                    0 => b.val(&Val::new(Nm::l(&format!("v{j}")), 1, Dat::Inline(vec![]))),
                    1 => [NONE, bad[1], root, 0x7FFF_FFF8][j % 4],
                    _ => shared,
                });
            }
            let extra = b.val(&Val::new(Nm::l("beyond"), 1, Dat::Inline(vec![])));
            let l = b.vlist(&offs, slack);
            for s in 0..slack / 4 {
                b.p32(l as usize + 4 + 4 * (n + s), extra);
            }
            b.set_vals(root, l, n as u32);
            let img = b.finish_tight(root, 5).bytes;
            let img = &img[..];
            let m = Model::new(img);
            let h = Hive::without_validation(img).unwrap();
            let Some(Ok(k)) = c.call(T, "root_key_node", 36, img, || h.root_key_node()) else { return };
            let ents = m.values(m.root().unwrap()).unwrap().unwrap();
            let Some(Some(Ok(it))) = c.call(T, "values", 36, img, || k.values()) else {
                c.report(T, "no iterator over the values".into(), Some(img));
                return;
            };
            explore(c, "KeyValues", img, &it, ents.len(), true, Some(|x| x.len()), depth, &|g, i| match (g, &ents[i]) {
                (Ok(v), Ok(w)) => val_id(img, v) == Some(w.p),
                (Err(_), Err(_)) => true,
                _ => false,
            });
        },
    )
}

/// Big data segments and multi-strings over them.
pub fn data_histories(name: &'static str, max: usize, depth: usize) -> Drv {
    let mut cases = vec![];
    for n in 2..=max {
        for mask in 0..3u32.pow(n as u32) {
            for surplus in [0usize, 1, 3] {
                for last in [1usize, SEG - 1, SEG] {
                    cases.push((n, mask, surplus, last));
                }
            }
        }
    }
    let nn = cases.len() as u64;
    Drv::new(
        name,
        format!("big data of 2..={max} segments, each its own, damaged or the one segment that others refer to as well, 0, 1 or 3 surplus segments, last segment of 1, 16343 or 16344 bytes: all call histories of depth {depth} on the segment iterator"),
        nn,
        move |idx, c| {
            let (n, mask, surplus, last) = cases[idx as usize];
            c.sample(|| format!("{n} segments, states {mask} in base 3, {surplus} surplus, last {last}"));
            let mut b = B::quiet();
            let root = b.nk(&Key::l("R"), 0);
            let mut offs = vec![];
            let shared = b.alloc(SEG, "seg");
            for j in 0..n {
                offs.push(match mask / 3u32.pow(j as u32) % 3 {
                    0 => b.alloc(SEG, "seg"),
                    1 => [NONE, 0x7FFF_FFF8, root, 1][j % 4],
                    _ => shared,
                });
            }
            for _ in 0..surplus {
                let o = b.alloc(SEG, "seg");
                offs.push(o);
            }
            let d = b.db(&offs, offs.len() as u16, 0);
            let v = b.val(&Val::new(Nm::l("d"), 3, Dat::Raw(((n - 1) * SEG + last) as u32, d)));
            let l = b.vlist(&[v], 0);
            b.set_vals(root, l, 1);
            let img = b.finish_tight(root, 5).bytes;
            let img = &img[..];
            with_values(c, img, |c, m, v, mv| {
                let Ok(MData::Big(segs)) = m.data(mv) else { return };
                let Some(Ok(KeyValueData::Big(it))) = c.call(T, "data", mv.p, img, || v.data()) else {
                    c.report(T, "no iterator over the segments".into(), Some(img));
                    return;
                };
                let base = img.as_ptr() as usize;
                explore(c, "BigDataSlices", img, &it, segs.len(), true, Some(|x| x.len()), depth, &|g, i| match (g, &segs[i]) {
                    (Ok(b), Ok((s, e))) => b.as_ptr() as usize - base == *s && b.len() == e - s,
                    (Err(_), Err(_)) => true,
                    _ => false,
                });
            });
        },
    )
}

/// Multi-string iterators: the reference is what plain stepping delivers, and must be right.
pub fn multi_histories(name: &'static str, len: u32, depth: usize) -> Drv {
    let units: [u16; 3] = [0, 0x61, 0xD801];
    let n: u64 = (0..=len).map(|l| 3u64.pow(l)).sum();
    Drv::new(
        name,
        format!("every multi-string of up to {len} units over NUL, letter, surrogate; in one cell, over two segments, and with a damaged second segment: all call histories of depth {depth}"),
        n,
        move |idx, c| {
            let mut i = idx;
            let mut l = 0;
            while i >= 3u64.pow(l) {
                i -= 3u64.pow(l);
                l += 1;
            }
            let u: Vec<u16> = (0..l)
                .map(|_| {
                    let x = units[(i % 3) as usize];
                    i /= 3;
                    x
                })
                .collect();
            c.sample(|| format!("units {u:x?}"));
            let d: Vec<u8> = u.iter().flat_map(|x| x.to_le_bytes()).collect();
            for st in 0..3 {
                let mut b = B::quiet();
                let root = b.nk(&Key::l("R"), 0);
                let v = match st {
                    0 => b.val(&Val::new(Nm::l("m"), 7, Dat::Cell(d.clone(), 2))),
                    _ => {
                        // the units straddle the boundary
                        let mut t = u16s(&"x".repeat(SEG / 2));
                        let k = SEG - (d.len() / 4) * 2;
                        t.truncate(k);
                        if k >= 8 {
                            t[4..6].fill(0);
                        }
                        t.extend_from_slice(&d);
                        if t.len() <= SEG {
                            t.resize(SEG + 2, 0x61);
                        }
                        let s0 = b.alloc(SEG, "seg");
                        let p = t[..SEG].to_vec();
                        b.put(s0 as usize + 4, &p);
                        let s1 = b.alloc(t.len() - SEG, "seg");
                        b.put(s1 as usize + 4, &t[SEG..]);
                        let db = b.db(&[s0, if st == 1 { s1 } else { NONE }], 2, 0);
                        b.val(&Val::new(Nm::l("m"), 7, Dat::Raw(t.len() as u32, db)))
                    }
                };
                let vl = b.vlist(&[v], 0);
                b.set_vals(root, vl, 1);
                let img = b.finish_tight(root, 5).bytes;
                let img = &img[..];
                with_values(c, img, |c, m, v, mv| {
                    let want = m.multi(mv);
                    let Some(Ok(it)) = c.call(T, "multi_string_data", mv.p, img, || v.multi_string_data()) else { return };
                    // reference: plain stepping (its content is judged by C12)
                    let Some(steps) = c.call(T, "RegMultiSZStrings", mv.p, img, || {
                        let mut j = it.clone();
                        let mut v = vec![];
                        while v.len() < 64 {
                            match j.next() {
                                Some(x) => v.push(x),
                                None => break,
                            }
                        }
                        v
                    }) else {
                        return;
                    };
                    if let Ok((strs, None, _)) = &want {
                        if st != 2 && (steps.len() != strs.len() || steps.iter().zip(strs).any(|(a, b)| a.as_ref().ok() != Some(b))) {
                            c.report(&["C12"], format!("multi-string {u:x?}: steps {steps:?}, expected {strs:?}"), Some(img));
                        }
                    }
                    explore(c, "RegMultiSZStrings", img, &it, steps.len(), false, None, depth, &|g, i| *g == steps[i]);
                });
            }
        },
    )
}
