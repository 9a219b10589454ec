//! Name families: comparison, conversion, flags and lengths.

use crate::engine::*;
use crate::img::*;
use crate::model::*;
use crate::walk::*;
use nt_hive::NtHiveNameString as N;
use std::cmp::Ordering;
use std::sync::Arc;

pub struct Form {
    pub bytes8: Option<Vec<u8>>,
    pub bytes16: Vec<u8>,
    pub text: Option<String>,
    pub units: Vec<u16>,
}

pub fn form(u: &[u16]) -> Form {
    let (t, bad) = decode(u);
    Form {
        bytes8: u.iter().all(|x| *x < 256).then(|| u.iter().map(|x| *x as u8).collect()),
        bytes16: u.iter().flat_map(|x| x.to_le_bytes()).collect(),
        text: (!bad).then_some(t),
        units: u.to_vec(),
    }
}

fn nts(f: &Form) -> Vec<N<'_>> {
    let mut v = vec![N::Utf16LE(&f.bytes16)];
    if let Some(b) = &f.bytes8 {
        v.push(N::Latin1(b));
    }
    v
}

const T13: Tags = &["C13"];

/// Compares two unit strings in every storage form and direction.
pub fn compare(c: &mut Ctx, a: &Form, b: &Form, odd: bool) {
    let want = cmp_units(&a.units, &b.units);
    let eq = want == Ordering::Equal;
    let r = c.call(T13, "compare", 0, &[], || {
        let mut bad: Option<String> = None;
        let mut n = 0u64;
        for x in nts(a) {
            for y in nts(b) {
                n += 6;
                if x.cmp(&y) != want
                    || x.partial_cmp(&y) != Some(want)
                    || (x == y) != eq
                    || (x != y) == eq
                    || (x < y) != (want == Ordering::Less)
                    || (x >= y) != (want != Ordering::Less)
                {
                    bad = Some(format!("{x:?} against {y:?}"));
                }
            }
            if let Some(t) = &b.text {
                let t: &str = t;
                n += 8;
                if x.partial_cmp(t) != Some(want)
                    || x.partial_cmp(&t) != Some(want)
                    || (x == *t) != eq
                    || (x == t) != eq
                    || t.partial_cmp(&x) != Some(want.reverse())
                    || PartialOrd::partial_cmp(&t, &x) != Some(want.reverse())
                    || PartialEq::eq(t, &x) != eq
                    || PartialEq::eq(&t, &x) != eq
                {
                    bad = Some(format!("{x:?} against the string {t:?}"));
                }
            }
        }
        if odd {
            let mut o = a.bytes16.clone();
            o.push(0x61);
            let x = N::Utf16LE(&o);
            for y in nts(b) {
                n += 2;
                if x.cmp(&y) != want || y.cmp(&x) != want.reverse() {
                    bad = Some(format!("odd {x:?} against {y:?}"));
                }
            }
        }
        (bad, n)
    });
    if let Some((bad, n)) = r {
        c.transitions += n;
        c.outcome(want as i8 as u8 as u64);
        if let Some(m) = bad {
            c.report(T13, format!("comparing {:x?} with {:x?}: {m} is not {want:?}", a.units, b.units), None);
        }
    }
}

pub fn reps() -> Vec<u16> {
    let t = upcase_table();
    let mut v: Vec<u16> = (0..=0x17F).collect();
    for u in 0..65536usize {
        let up = t[u];
        // mapping edges: first/last of runs with a constant distance
        if up as usize != u {
            let d = |x: usize| -> i32 { if x < 65536 { t[x] as i32 - x as i32 } else { 0 } };
            if u > 0 && d(u - 1) != d(u) && d(u.wrapping_sub(2)) != d(u) {
                v.push(u as u16);
                v.push(up);
            }
        }
    }
    v.extend([0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFE, 0xFFFF, 0x1E9E, 0x2126, 0x212A, 0x212B]);
    v.sort();
    v.dedup();
    v
}

/// Every unit against every representative (and everything near it).
pub fn units_vs_reps(name: &'static str) -> Drv {
    let r = reps();
    let forms: Arc<Vec<Form>> = Arc::new(r.iter().map(|u| form(&[*u])).collect());
    Drv::new(
        name,
        format!("every one-unit name (65536) against {} representatives and its own case partners, in every storage form and both directions", r.len()),
        4096,
        move |idx, c| {
            c.sample(|| format!("units {:#x}..{:#x}", idx * 16, idx * 16 + 15));
            for l in 0..16 {
                let u = (idx * 16 + l) as u16;
                let f = form(&[u]);
                for g in forms.iter() {
                    compare(c, &f, g, false);
                }
                let up = upcase(u);
                for x in [up, up.wrapping_add(1), up.wrapping_sub(1), u.wrapping_add(1), u.wrapping_sub(1), u.wrapping_add(32), u ^ 1] {
                    let g = form(&[x]);
                    compare(c, &f, &g, true);
                    compare(c, &g, &f, false);
                }
                // embedded between other units
                let a = form(&[0x71, u, 0x72]);
                let b = form(&[0x51, up, 0x52]);
                compare(c, &a, &b, false);
                let b = form(&[0x51, up, 0x53]);
                compare(c, &a, &b, false);
                c.states += 1;
            }
        },
    )
    .chunk(8)
}

/// All pairs of one-unit names.
pub fn all_pairs(name: &'static str) -> Drv {
    Drv::new(name, "all 65536 x 65536 pairs of one-unit UTF-16 names", 65536, |idx, c| {
        c.sample(|| format!("unit {idx:#x} against all 65536"));
        let t = upcase_table();
        let a = (idx as u16).to_le_bytes();
        let r = c.call(T13, "cmp", 0, &[], || {
            let x = N::Utf16LE(&a);
            for v in 0..65536u32 {
                let b = (v as u16).to_le_bytes();
                if x.cmp(&N::Utf16LE(&b)) != t[idx as usize].cmp(&t[v as usize]) {
                    return Some(v);
                }
            }
            None
        });
        c.transitions += 65536;
        c.states += 65536;
        if let Some(Some(v)) = r {
            c.report(T13, format!("unit {idx:#x} against {v:#x} compares wrongly"), None);
        }
    })
    .chunk(64)
}

/// All pairs of short strings over an alphabet of case pairs, expanding characters and surrogates.
pub fn string_pairs(name: &'static str, len: u32) -> Drv {
    let al: [u16; 9] = [0x61, 0x41, 0x5F, 0xFF, 0x178, 0xB5, 0xD801, 0xDC28, 0];
    let mut v: Vec<Vec<u16>> = vec![vec![]];
    let mut cur: Vec<Vec<u16>> = vec![vec![]];
    for _ in 0..len {
        cur = cur
            .iter()
            .flat_map(|s| {
                al.iter().map(move |u| {
                    let mut s = s.clone();
                    s.push(*u);
                    s
                })
            })
            .collect();
        v.extend(cur.clone());
    }
    let fs: Arc<Vec<Form>> = Arc::new(v.iter().map(|u| form(u)).collect());
    let n = fs.len() as u64;
    Drv::new(
        name,
        format!("all pairs of {n} strings of up to {len} units over {al:x?}, every storage form and direction"),
        n,
        move |idx, c| {
            let a = &fs[idx as usize];
            c.sample(|| format!("{:x?} against all", a.units));
            for b in fs.iter() {
                compare(c, a, b, a.units.len() < 3);
            }
            c.states += 1;
        },
    )
}

/// Long names that differ only in their length or in the last unit.
pub fn long_pairs(name: &'static str) -> Drv {
    let ls = [0usize, 1, 2, 126, 127, 128, 254, 255, 256, 257, 511, 512, 32766, 32767, 32768, 65535, 65536, 65537, 100_000, 1 << 20];
    Drv::new(name, "names of 0..=2^20 units: all length pairs, equal content up to case, difference in the last unit; those of up to 512 units also with it in each other place", (ls.len() * ls.len()) as u64, move |idx, c| {
        let (x, y) = (ls[idx as usize / ls.len()], ls[idx as usize % ls.len()]);
        c.sample(|| format!("lengths {x} and {y}"));
        let mk = |n: usize, a: u16, l: u16| {
            let mut v = vec![a; n];
            if let Some(z) = v.last_mut() {
                *z = l;
            }
            form(&v)
        };
        for (a, la, b, lb) in [(0x61, 0x61, 0x41, 0x41), (0x61, 0x62, 0x41, 0x41), (0xE9, 0x61, 0xC9, 0x42), (0x178, 0x178, 0xFF, 0xFF)] {
            compare(c, &mk(x, a, la), &mk(y, b, lb), false);
        }
        if x == y && x <= 512 {
            for p in 0..x {
                let (mut u, mut v) = (vec![0x61u16; x], vec![0x41u16; x]);
                (u[p], v[p]) = (0xE9, if p % 2 == 0 { 0xC9 } else { 0xCA });
                compare(c, &form(&u), &form(&v), false);
            }
        }
        c.states += 1;
    })
}

/// Names of every length that differ in one unit at every place.
pub fn places(name: &'static str, max: usize) -> Drv {
    // equal but for case, ordered otherwise by their bytes, raw units, folded units or code points
    const D: [(u16, u16); 12] = [
        (0x61, 0x62),
        (0x61, 0x41),
        (0xE9, 0xC9),
        (0x62, 0x41),
        (0x61, 0x5B),
        (0x5F, 0x41),
        (0xFF, 0x100),
        (0x102, 0x201),
        (0xD801, 0xE000),
        (0xDC37, 0xFFFF),
        (0x61, 0x161),
        (0, 1),
    ];
    let mut ls: Vec<usize> = (1..=max).collect();
    ls.extend([255, 256, 257, 260, 511, 512, 513]);
    ls.sort();
    ls.dedup();
    let n = ls.len() as u64;
    Drv::new(
        name,
        format!("names of {n} lengths from 1 to {}, differing at every place in each of {} pairs of units, behind equal or case-varied narrow, wide or surrogate text, before equal text, text that is ordered the other way round, or the end of one", ls[ls.len() - 1], D.len()),
        n,
        move |idx, c| {
            let l = ls[ls.len() - 1 - idx as usize];
            c.sample(|| format!("{l} units"));
            for p in 0..l {
                // all of them where something may be special, some of them elsewhere
                let dense = l <= 72 || p % 8 == 7 || p % 8 == 0 || p + 2 >= l || p < 3;
                for (i, (x, y)) in D.into_iter().enumerate() {
                    if !dense && i % 4 != p % 4 {
                        continue;
                    }
                    let k = (i + p) % 4;
                    let (mut u, mut v): (Vec<u16>, Vec<u16>) = match k {
                        0 => (vec![0x61; l], vec![0x61; l]),
                        1 => (vec![0x61; l], vec![0x41; l]),
                        2 => (vec![0x3042; l], vec![0x3042; l]),
                        _ => ((0..l).map(|i| [0xD83D, 0xDE00][i % 2]).collect(), (0..l).map(|i| [0xD83D, 0xDE00][i % 2]).collect()),
                    };
                    (u[p], v[p]) = (x, y);
                    compare(c, &form(&u), &form(&v), false);
                    if p + 1 < l {
                        // the rest ordered the other way round
                        u[p + 1..].fill(0x79);
                        v[p + 1..].fill(0x42);
                        compare(c, &form(&u), &form(&v), false);
                        u.truncate(p + 1);
                        compare(c, &form(&u), &form(&v), false);
                    }
                }
            }
            c.states += 1;
        },
    )
}

// ---------------------------------------------------------------------------------------------
// C14

/// Every flags word of a key and of a value.
pub fn flags_all(name: &'static str) -> Drv {
    let mk = |n: Nm| {
        build_tight(
            &Key::new(n.clone()).class("\u{e4}c").vals(vec![Val::new(n, 4, Dat::Inline(vec![1, 2, 3, 4]))]),
            5,
        )
    };
    let imgs: Arc<Vec<Img>> = Arc::new(vec![mk(Nm::L(vec![0x41, 0xE9, 0x43])), mk(Nm::L(vec![0x41, 0x00, 0xE9, 0x20]))]);
    let cfg = Cfg { iters: false, typed: false, clear: false, paths: vec![], extra_probes: vec![], lookups: false, ..Cfg::full() };
    Drv::new(name, "all 65536 flag words of a key record and of a value record, names of odd and even length", 65536, move |idx, c| {
        c.sample(|| format!("flags {idx:#06x}"));
        for im in imgs.iter() {
            for f in im.fields.iter().filter(|f| f.kind == FK::Flags) {
                let mut b = im.bytes.clone();
                b[f.pos..f.pos + 2].copy_from_slice(&(idx as u16).to_le_bytes());
                walk(c, &b, &cfg);
            }
        }
    })
    .chunk(256)
}

/// Every name length against exactly fitting, larger and smaller records.
pub fn lengths(name: &'static str, tier: Tier) -> Drv {
    let mut ls: Vec<usize> = (0..=530).chain((531..65536).step_by(997)).collect();
    for k in 10..=16 {
        ls.extend((1usize << k) - 3..=((1 << k) + 2).min(65535));
    }
    ls.sort();
    ls.dedup();
    if tier == Tier::Thorough {
        ls = (0..=2000).chain((2001..65536).step_by(37)).chain(ls.into_iter().filter(|x| *x > 2000)).collect();
    }
    let n = ls.len() as u64;
    let cfg = Cfg { iters: false, typed: false, clear: false, paths: vec![], extra_probes: vec!["a".into()], ..Cfg::full() };
    Drv::new(
        name,
        format!("{n} stored lengths of key name, value name and class name, Latin-1 and UTF-16, with 0..=9 spare bytes and declared lengths up to 9 more than present"),
        n,
        move |idx, c| {
            let l = ls[ls.len() - 1 - idx as usize];
            c.sample(|| format!("length {l}"));
            let body = pattern(l, 11);
            for comp in [true, false] {
                for slack in [0usize, 1, 5, 8] {
                    let nmx = Nm::Raw(body.clone(), comp);
                    let mut k = Key::new(nmx.clone()).vals(vec![Val::new(nmx, 4, Dat::Inline(vec![1]))]);
                    k.class = Some(body.clone());
                    k.slack = slack;
                    if let Some(v) = &mut k.vals {
                        if let VEnt::V(v) = &mut v[0] {
                            v.slack = slack;
                        }
                    }
                    let im = { let mut b = B::new(); let o = b.key(&k, 0); b.finish_tight(o, 5) };
                    walk(c, &im.bytes, &cfg);
                    if slack == 0 {
                        for f in im.fields.iter().filter(|f| f.kind == FK::Len) {
                            for d in [1usize, 2, 3, 4, 7, 8, 9] {
                                if l + d < 65536 {
                                    let mut b = im.bytes.clone();
                                    b[f.pos..f.pos + 2].copy_from_slice(&((l + d) as u16).to_le_bytes());
                                    walk(c, &b, &cfg);
                                }
                            }
                        }
                    }
                }
            }
        },
    )
}

/// All short unit strings as names, all format options.
pub fn conversions(name: &'static str, len: u32) -> Drv {
    let al: [u16; 7] = [0x61, 0xE9, 0xD83D, 0xDE00, 0, 0xFFFD, 0x3042];
    let k = al.len() as u64;
    let n: u64 = (0..=len).map(|l| k.pow(l)).sum();
    Drv::new(
        name,
        format!("every UTF-16 name of up to {len} units over {al:x?} with and without an odd byte, and its low bytes as Latin-1; 12 formatting options"),
        n,
        move |idx, c| {
            let mut i = idx;
            let mut l = 0;
            while i >= k.pow(l) {
                i -= k.pow(l);
                l += 1;
            }
            let u: Vec<u16> = (0..l)
                .map(|_| {
                    let x = al[(i % k) as usize];
                    i /= k;
                    x
                })
                .collect();
            c.sample(|| format!("units {u:x?}"));
            let mut b: Vec<u8> = u.iter().flat_map(|x| x.to_le_bytes()).collect();
            one_conv(c, &N::Utf16LE(&b));
            b.push(0x41);
            one_conv(c, &N::Utf16LE(&b));
            let b8: Vec<u8> = u.iter().map(|x| *x as u8).collect();
            one_conv(c, &N::Latin1(&b8));
            c.states += 3;
        },
    )
    .chunk(16)
}

/// Every single unit and every pair with a surrogate; every Latin-1 pair.
pub fn conv_units(name: &'static str) -> Drv {
    Drv::new(name, "every unit alone, doubled, first or last, next to a NUL and to surrogates; every pair of Latin-1 bytes", 256, |idx, c| {
        c.sample(|| format!("units {:#x}..", idx * 256));
        for l in 0..256u32 {
            let u = (idx as u32 * 256 + l) as u16;
            let mk = |x: &[u16]| -> Vec<u8> { x.iter().flat_map(|x| x.to_le_bytes()).collect() };
            for s in [mk(&[u]), mk(&[0xD83D, u]), mk(&[u, 0xDE00]), mk(&[0x61, u, 0x62]), mk(&[u, u]), mk(&[u, 0x62]), mk(&[0x61, u]), mk(&[0x61, u, u, 0x62]), mk(&[u, 0]), mk(&[0, u]), mk(&[0x61, 0, u]), vec![l as u8]] {
                name_ops(c, &[], &N::Utf16LE(&s), 0);
            }
            one_conv(c, &N::Utf16LE(&mk(&[u])));
            for s in [&[idx as u8, l as u8][..], &[0x61, idx as u8, l as u8], &[idx as u8, l as u8, 0x62]] {
                name_ops(c, &[], &N::Latin1(s), 0);
            }
            c.states += 17;
        }
    })
}

/// Every pair of representative units.
pub fn conv_pairs(name: &'static str) -> Drv {
    let r = reps();
    Drv::new(name, format!("all {}^2 pairs of representative units as names, alone and between letters", r.len()), r.len() as u64, move |idx, c| {
        let u = r[idx as usize];
        c.sample(|| format!("unit {u:#x} before each other one"));
        for w in &r {
            let [a, b] = u.to_le_bytes();
            let [x, y] = w.to_le_bytes();
            name_ops(c, &[], &N::Utf16LE(&[a, b, x, y]), 0);
            name_ops(c, &[], &N::Utf16LE(&[0x61, 0, a, b, x, y, 0x62, 0]), 0);
            c.states += 2;
        }
    })
}

fn one_conv(c: &mut Ctx, n: &N) {
    name_ops(c, &[], n, 0);
    let (comp, b) = nbytes(n);
    let (text, _) = decode(&units_of(b, comp));
    let r = c.call(&["C14"], "Display with options", 0, &[], || {
        vec![
            format!("{n:1}"),
            format!("{n:*<3}"),
            format!("{n:*>40}"),
            format!("{n:*^7}"),
            format!("{n:.0}"),
            format!("{n:.1}"),
            format!("{n:*>5.2}"),
            format!("{n:+}"),
            format!("{n:#}"),
            format!("{n:05}"),
            format!("{n:-<9}"),
            n.to_string(),
        ]
    });
    if let Some(v) = r {
        c.transitions += v.len() as u64;
        for s in v {
            if s != text {
                // padding around the whole name would leave its characters alone
                let t = s.trim_matches(|c| matches!(c, '*' | ' ' | '0' | '-'));
                let w = text.trim_matches(|c| matches!(c, '*' | ' ' | '0' | '-'));
                if t != w {
                    c.report(&["C14"], format!("{b:02x?} is displayed as {s:?} with formatting options, its text is {text:?}"), None);
                    return;
                }
            }
        }
    }
}

/// Class names: present/absent, lengths, flags, with the name's compression flag set or not.
pub fn class_grid(name: &'static str) -> Drv {
    Drv::new(name, "class name: reference absent/present x length 0..=12 (declared up to 4 more than the cell holds) x key flags x name encoding", 2 * 13 * 8 * 2, |idx, c| {
        let mut i = idx;
        let mut pick = |n: u64| {
            let x = i % n;
            i /= n;
            x
        };
        let (present, len, fl, enc) = (pick(2), pick(13) as usize, pick(8) as u16, pick(2));
        c.sample(|| format!("present {present} length {len} flags {fl} encoding {enc}"));
        for cell in [len.saturating_sub(4), len, len + 4] {
            let mut b = B::quiet();
            let mut k = Key::new(if enc == 0 { Nm::l("N") } else { Nm::u("N\u{e9}") });
            k.flags = [0u16, 2, 4, 8, 0x10, 0x40, 0x80, 0x100][fl as usize];
            let o = b.nk(&k, 0);
            let co = b.alloc(cell, "class");
            let body = pattern(cell, 3);
            b.put(co as usize + 4, &body);
            let p = o as usize + 4;
            if present == 1 {
                b.p32(p + 48, co);
            }
            b.p16(p + 74, len as u16);
            let im = b.finish_tight(o, 5);
            walk(c, &im.bytes, &Cfg { clear: false, ..Cfg::full() });
        }
    })
}
