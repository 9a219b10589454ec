//! Seed hives and systematic single/double fault spaces over them.

use crate::engine::*;
use crate::img::*;
use crate::walk::*;
use std::sync::Arc;

pub fn u16s(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect()
}

pub fn sz(s: &str) -> Dat {
    Dat::Cell(u16s(s), 0)
}

/// Root with a leaf of two keys, a grandchild, class names and a few values.
pub fn seed_mini(lt: Lt) -> Key {
    Key::l("Root")
        .vol(3)
        .class("Cls")
        .vals(vec![
            Val::new(Nm::l(""), 1, sz("hi\0")),
            Val::new(Nm::u("Dw"), 4, Dat::Inline(vec![1, 2, 3, 4])),
        ])
        .leaf(
            lt,
            vec![
                Key::l("a").vol(1).vals(vec![Val::new(
                    Nm::l("m"),
                    7,
                    Dat::Cell(u16s("x\0yz\0\0"), 2),
                )]),
                Key::new(Nm::u("b"))
                    .vol(7)
                    .leaf(Lt::Li, vec![Key::l("c").vol(0x0102_0304)]),
            ],
        )
}

/// Two-level index over all leaf formats.
pub fn seed_ri() -> Key {
    let e = |n: &str| Ent::K(Key::l(n).vol(5));
    let mut k = Key::l("R");
    k.subs = Subs::Root(vec![
        SubList::Leaf(Lt::Lf, vec![e("a"), e("b")]),
        SubList::Leaf(Lt::Li, vec![e("c")]),
        SubList::Leaf(
            Lt::Lh,
            vec![
                e("d"),
                Ent::K(Key::l("e").leaf(Lt::Lf, vec![Key::new(Nm::u("\u{e4}")).vol(9)])),
            ],
        ),
    ]);
    k
}

/// Every value layout that fits in small cells.
pub fn seed_values() -> Key {
    Key::l("V").vals(vec![
        Val::new(Nm::l("q"), 11, Dat::Cell(vec![1, 2, 3, 4, 5, 6, 7, 8], 0)),
        Val::new(Nm::l("D"), 5, Dat::Cell(vec![9, 8, 7, 6], 4)),
        Val::new(Nm::u("s"), 2, Dat::Inline(vec![0x41, 0, 0x42, 0])),
        Val::new(Nm::l("z"), 3, Dat::Inline(vec![])),
        Val::new(Nm::l("\u{e4}"), 3, Dat::Cell(pattern(21, 1), 3)),
        Val::new(Nm::l("n"), 0, Dat::Inline(vec![5])),
        Val::new(Nm::l("m"), 7, Dat::Inline(vec![0x41, 0, 0, 0])),
    ])
}

/// Big data: a two-segment string and a three-segment multi-string.
pub fn seed_big() -> Key {
    let s = "\u{e9}x".repeat(SEG / 4 + 20);
    let m = format!("{}\0{}\0\0", "ab".repeat(SEG / 4 + 5), "cd".repeat(SEG / 4 + 9));
    Key::l("B").vals(vec![
        Val::new(Nm::l("s"), 1, Dat::Big { data: u16s(&s), surplus: 0, slack: 0 }),
        Val::new(Nm::l("m"), 7, Dat::Big { data: u16s(&m), surplus: 1, slack: 4 }),
    ])
}

/// Seeds as images: (name, image).
pub fn seeds() -> Vec<(&'static str, Img)> {
    vec![
        ("mini-lf", build(&seed_mini(Lt::Lf), 5)),
        ("mini-lh-tight", build_tight(&seed_mini(Lt::Lh), 6)),
        ("mini-li-nt4", build_tight(&seed_mini(Lt::Li), 3)),
        ("ri", build_tight(&seed_ri(), 5)),
        ("values", build_tight(&seed_values(), 5)),
    ]
}

pub fn seeds_big() -> Vec<(&'static str, Img)> {
    vec![("big", build_tight(&seed_big(), 5))]
}

/// Positions of all bytes worth corrupting: the root reference and everything used, except the
/// bulk of big data segments.
pub fn positions(img: &Img) -> Vec<usize> {
    let mut v: Vec<usize> = (36..40).collect();
    if img.used_end - BASE < 6000 {
        v.extend(BASE + 32..img.used_end);
    } else {
        let mut p: Vec<usize> = img
            .fields
            .iter()
            .flat_map(|f| f.pos..f.pos + f.width)
            .collect();
        p.sort();
        p.dedup();
        v.extend(p);
        v.sort();
        v.dedup();
    }
    v
}

pub fn get(b: &[u8], f: &Field) -> u32 {
    if f.width == 2 {
        u16::from_le_bytes([b[f.pos], b[f.pos + 1]]) as u32
    } else {
        u32::from_le_bytes(b[f.pos..f.pos + 4].try_into().unwrap())
    }
}
pub fn set(b: &mut [u8], f: &Field, v: u32) {
    if f.width == 2 {
        b[f.pos..f.pos + 2].copy_from_slice(&(v as u16).to_le_bytes());
    } else {
        b[f.pos..f.pos + 4].copy_from_slice(&v.to_le_bytes());
    }
}

/// Interesting values of a field: everything that selects a different behaviour nearby, every
/// cell of the image as a target, and the extremes.
pub fn interesting(img: &Img, f: &Field, small: bool) -> Vec<u32> {
    let orig = get(&img.bytes, f);
    let dlen = (img.bytes.len() - BASE) as u32;
    let mut v: Vec<u32> = vec![];
    match (f.kind, f.width) {
        (FK::Ref, _) => {
            for (o, s) in &img.cells {
                v.push(*o);
                if !small {
                    v.extend([o + 4, o + s - 8, o.wrapping_sub(8)]);
                }
            }
            v.extend([
                NONE,
                NONE - 1,
                NONE - 3,
                NONE - 7,
                NONE - 4095,
                NONE - 4096,
                0x7FFF_FFFF,
                0x8000_0000,
                0x8000_0000 - 4096,
                0,
                4,
                dlen,
                dlen.wrapping_sub(1),
                dlen.wrapping_sub(3),
                dlen.wrapping_sub(4),
                dlen.wrapping_sub(8),
                dlen + 8,
                orig.wrapping_add(1),
                orig.wrapping_sub(1),
                orig.wrapping_sub(4),
            ]);
        }
        (FK::CellSize, _) => {
            let o = (orig as i32).wrapping_neg();
            for n in [
                0, 1, 4, 7, 8, 9, 12, 16, 24, 32, 72, 76, 80, 84, 88, 96, o - 8, o + 8, o - 4, o + 4,
                o - 1, o + 1, o - 16, o + 16, 4096, 0x7FFF_FFF8, 0x7FFF_FFFF,
            ] {
                v.push((-n) as u32);
                v.push(n as u32);
            }
            v.extend([0x8000_0000, 0x8000_0001, 0x8000_0008]);
        }
        (FK::Sig, _) => {
            for s in [
                b"nk", b"vk", b"lf", b"lh", b"li", b"ri", b"db", b"sk", b"NK", b"kn", b"LF", b"\0\0",
                b"\xff\xff", b"nl", b"ld", b"re",
            ] {
                v.push(u16::from_le_bytes(*s) as u32);
            }
        }
        (FK::Count, 2) | (FK::Len, _) | (FK::Flags, _) => {
            v.extend(0..=12);
            v.extend([
                16, 24, 32, 33, 63, 64, 127, 128, 255, 256, 0x3FFF, 0x4000, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF,
                (orig + 1) & 0xFFFF,
                orig.wrapping_sub(1) & 0xFFFF,
            ]);
        }
        (FK::Count, _) | (FK::Volatile, _) | (FK::Type, _) => {
            v.extend(0..=13);
            v.extend([
                16, 255, 256, 65535, 65536, 0x3FFF_FFFF, 0x4000_0000, 0x4000_0001, 0x7FFF_FFFF,
                0x8000_0000, 0x8000_0001, 0xC000_0000, 0xFFFF_FFFE, NONE,
            ]);
        }
        (FK::DataSize, _) => {
            v.extend(0..=33);
            for s in [1u32, 2, 3, 4, 65535, 65536] {
                let x = s * SEG as u32;
                v.extend([x - 1, x, x + 1]);
            }
            v.extend(0x8000_0000..=0x8000_0009);
            v.extend([
                0x7FFF_FFFF, 0x7FFF_FFFC, 0xFFFF_FFFF, 0xFFFF_FFFC, 0x4000_0000, 0x4000_0004, 0xC000_0004,
                0x8000_0100, 0x8001_0004, 0x8000_3FD9, 65535, 65536,
            ]);
        }
        (FK::Inert, _) => v.extend([0, 1, 0x8000_0000, NONE, 0x5a5a_5a5a]),
    }
    if f.width == 2 {
        for x in v.iter_mut() {
            *x &= 0xFFFF;
        }
    }
    v.sort();
    v.dedup();
    v.retain(|x| *x != orig);
    v
}

struct Space {
    /// (seed, field index, value)
    cases: Vec<(u16, u32, u32)>,
}

fn diff(s: &str, b: &[u8], changes: &[(usize, usize)]) -> String {
    let mut o = format!("seed {s}");
    for (p, w) in changes {
        o += &format!(" [{:#x}]={:02x?}", p, &b[*p..*p + *w]);
    }
    o
}

/// All 256 values of every used byte of every seed.
pub fn byte_faults(name: &'static str, sd: Vec<(&'static str, Img)>, cfg: Cfg) -> Drv {
    let sd = Arc::new(sd);
    let mut pos: Vec<(u16, u32)> = vec![];
    for (i, (_, s)) in sd.iter().enumerate() {
        pos.extend(positions(s).into_iter().map(|p| (i as u16, p as u32)));
    }
    let n = pos.len() as u64;
    let bound = format!(
        "every single-byte change (all 256 values) of {} structural bytes of {} seed hives",
        pos.len(),
        sd.len()
    );
    Drv::new(name, bound, n, move |idx, c| {
        let (s, p) = pos[idx as usize];
        let (nm, img) = &sd[s as usize];
        let mut b = img.bytes.clone();
        let orig = b[p as usize];
        c.sample(|| format!("seed {nm}: byte {p:#x} (was {orig:#04x}) set to each of 256 values"));
        for v in 0..=255u8 {
            b[p as usize] = v;
            walk(c, &b, &cfg);
        }
    })
}

/// Every interesting value of every field.
pub fn field_faults(
    name: &'static str,
    sd: Vec<(&'static str, Img)>,
    cfg: Cfg,
    pick: impl Fn(&Field) -> bool,
) -> Drv {
    let sd = Arc::new(sd);
    let mut sp = Space { cases: vec![] };
    let mut nf = 0;
    for (i, (_, s)) in sd.iter().enumerate() {
        for (j, f) in s.fields.iter().enumerate() {
            if pick(f) {
                nf += 1;
                for v in interesting(s, f, false) {
                    sp.cases.push((i as u16, j as u32, v));
                }
            }
        }
    }
    let n = sp.cases.len() as u64;
    Drv::new(
        name,
        format!("single-field faults: {nf} fields x all interesting values"),
        n,
        move |idx, c| {
            let (s, j, v) = sp.cases[idx as usize];
            let (nm, img) = &sd[s as usize];
            let f = &img.fields[j as usize];
            let mut b = img.bytes.clone();
            set(&mut b, f, v);
            c.sample(|| format!("{} ({})", diff(nm, &b, &[(f.pos, f.width)]), f.name));
            walk(c, &b, &cfg);
        },
    )
    .chunk(16)
}

/// Every pair of fields with every pair of (reduced) interesting values.
pub fn pair_faults(name: &'static str, sd: Vec<(&'static str, Img)>, cfg: Cfg) -> Drv {
    let sd = Arc::new(sd);
    let mut pairs: Vec<(u16, u16, u16)> = vec![];
    let mut vals: Vec<Vec<Vec<u32>>> = vec![];
    for (i, (_, s)) in sd.iter().enumerate() {
        let mut vv = vec![];
        for f in &s.fields {
            let mut v = interesting(s, f, true);
            if f.kind == FK::Inert {
                v.clear();
            }
            // thin out: keep at most 14 spread values plus the extremes
            if v.len() > 14 {
                let st = v.len() as f64 / 14.0;
                v = (0..14).map(|k| v[(k as f64 * st) as usize]).chain([*v.last().unwrap()]).collect();
            }
            vv.push(v);
        }
        for a in 0..s.fields.len() {
            for b in a + 1..s.fields.len() {
                if !vv[a].is_empty() && !vv[b].is_empty() {
                    pairs.push((i as u16, a as u16, b as u16));
                }
            }
        }
        vals.push(vv);
    }
    let n = pairs.len() as u64;
    Drv::new(
        name,
        format!("{n} pairs of structural fields x up to 15x15 values each"),
        n,
        move |idx, c| {
            let (s, fa, fb) = pairs[idx as usize];
            let (nm, img) = &sd[s as usize];
            let (a, b) = (&img.fields[fa as usize], &img.fields[fb as usize]);
            c.sample(|| format!("seed {nm}: {} x {}", a.name, b.name));
            let mut buf = img.bytes.clone();
            for x in &vals[s as usize][fa as usize] {
                for y in &vals[s as usize][fb as usize] {
                    set(&mut buf, a, *x);
                    set(&mut buf, b, *y);
                    walk(c, &buf, &cfg);
                }
            }
        },
    )
}

/// Every prefix of every seed.
pub fn truncations(name: &'static str, sd: Vec<(&'static str, Img)>, cfg: Cfg) -> Drv {
    let sd = Arc::new(sd);
    let mut cases: Vec<(u16, u32)> = vec![];
    for (i, (_, s)) in sd.iter().enumerate() {
        for l in 0..=s.bytes.len().min(4200) {
            cases.push((i as u16, l as u32));
        }
        let mut l = 4201;
        while l <= s.bytes.len() {
            cases.push((i as u16, l as u32));
            l += if s.bytes.len() > 20000 { 61 } else { 1 };
        }
        cases.push((i as u16, s.bytes.len() as u32));
    }
    let n = cases.len() as u64;
    Drv::new(
        name,
        format!("{n} truncated inputs (every length; stride 61 inside 16 KiB segments)"),
        n,
        move |idx, c| {
            let (s, l) = cases[idx as usize];
            let (nm, img) = &sd[s as usize];
            c.sample(|| format!("seed {nm} truncated to {l} bytes"));
            let b = img.bytes[..l as usize].to_vec();
            walk(c, &b, &cfg);
        },
    )
    .chunk(16)
}

/// Tiny data areas filled from a small alphabet, with every root offset nearby.
pub fn tiny_blobs(name: &'static str, len: usize, tier: Tier) -> Drv {
    let alpha: &[u8] = if tier == Tier::Quick {
        &[0x00, 0x01, 0x80, 0xf8, 0xff]
    } else {
        &[0x00, 0x01, 0x08, 0x6e, 0x80, 0xf0, 0xf8, 0xff]
    };
    let n: u64 = (0..=len).map(|l| (alpha.len() as u64).pow(l as u32)).sum();
    let bound = format!("all data areas of up to {len} bytes over the alphabet {alpha:02x?}, 6 root offsets");
    Drv::new(name, bound, n, move |idx, c| {
        let mut i = idx;
        let mut l = 0;
        loop {
            let k = (alpha.len() as u64).pow(l as u32);
            if i < k {
                break;
            }
            i -= k;
            l += 1;
        }
        let mut d = vec![];
        for _ in 0..l {
            d.push(alpha[(i % alpha.len() as u64) as usize]);
            i /= alpha.len() as u64;
        }
        c.sample(|| format!("data area {d:02x?}"));
        let cfg = Cfg::full();
        for root in [0u32, 1, 4, 0x20, 0xFFFF_FFFF, 0xFFFF_FFFC] {
            let mut b = header(root, 5, 0);
            b.extend_from_slice(&d);
            walk(c, &b, &cfg);
        }
    })
    .chunk(64)
}

/// A fixed set of records whose reference fields are wired in every possible way.
pub fn wiring(name: &'static str, tier: Tier, cfg: Cfg) -> Drv {
    // cells: K0 (root), K1, L (leaf, 2 items), R (ri, 2 items), V, VL (1 item), D
    let mut b = B::new();
    let k0 = b.nk(&Key::l("r0"), 0);
    let k1 = b.nk(&Key::l("r1"), 0);
    let l = b.leaf(Lt::Lf, &[(k1, *b"r1\0\0", [0; 4]), (k1, *b"r1\0\0", [0; 4])], 0);
    let r = b.ri(&[l, l], 0);
    let v = b.val(&Val::new(Nm::l("v"), 1, Dat::Raw(6, 0)));
    let vl = b.vlist(&[v, v], 0);
    let d = b.alloc(8, "data.cell");
    b.set_vals(k0, vl, 2);
    b.set_vals(k1, vl, 1);
    let img = b.finish_tight(k0, 5);
    let targets: Vec<u32> = vec![k0, k1, l, r, v, vl, d, NONE, 0, d + 16];
    let fpos = |cell: u32, rel: usize| cell as usize + 4 + rel + BASE;
    let fields: Vec<usize> = vec![
        36,
        fpos(k0, 28),
        fpos(k1, 28),
        fpos(l, 4),
        fpos(r, 4),
        fpos(r, 8),
        fpos(k0, 40),
        fpos(vl, 4),
        fpos(v, 8),
        fpos(k0, 48),
    ];
    let nf = if tier == Tier::Quick { 6 } else { 8 };
    let t = targets.len() as u64;
    let n = t.pow(nf as u32 - 2);
    let base = [k0, r, l, k1, l, l, vl, v, d, NONE];
    Drv::new(
        name,
        format!("cell graph of 7 records: {nf} references x {t} targets each, all combinations"),
        n,
        move |idx, c| {
            let mut buf = img.bytes.clone();
            for (i, p) in fields.iter().enumerate() {
                buf[*p..*p + 4].copy_from_slice(&base[i].to_le_bytes());
            }
            let mut i = idx;
            // the first two references are enumerated inside the case
            for p in fields[2..nf].iter() {
                let x = targets[(i % t) as usize];
                i /= t;
                buf[*p..*p + 4].copy_from_slice(&x.to_le_bytes());
            }
            c.sample(|| format!("wiring {idx}"));
            for a in &targets {
                buf[fields[0]..fields[0] + 4].copy_from_slice(&a.to_le_bytes());
                for b in &targets {
                    buf[fields[1]..fields[1] + 4].copy_from_slice(&b.to_le_bytes());
                    walk(c, &buf, &cfg);
                }
            }
        },
    )
    .chunk(8)
}

/// A copy of `b` starting `shift` bytes after a 16-byte boundary.
pub struct Placed {
    v: Vec<u8>,
    at: usize,
    n: usize,
}
impl Placed {
    pub fn new(b: &[u8], shift: usize) -> Placed {
        let mut v = vec![0xA5u8; b.len() + 48];
        let at = (16 - v.as_ptr() as usize % 16) % 16 + shift;
        v[at..at + b.len()].copy_from_slice(b);
        Placed { v, at, n: b.len() }
    }
    pub fn get(&self) -> &[u8] {
        &self.v[self.at..self.at + self.n]
    }
    pub fn get_mut(&mut self) -> &mut [u8] {
        let (a, n) = (self.at, self.n);
        &mut self.v[a..a + n]
    }
}

/// Every interesting value of every field, the hive placed inside a larger buffer at each shift.
pub fn field_faults_placed(name: &'static str, sd: Vec<(&'static str, Img)>, cfg: Cfg, shifts: &'static [usize]) -> Drv {
    let sd = Arc::new(sd);
    let mut cases = vec![];
    for (i, (_, s)) in sd.iter().enumerate() {
        for j in 0..s.fields.len() {
            cases.push((i as u16, j as u32));
        }
    }
    let n = cases.len() as u64;
    Drv::new(
        name,
        format!("single-field faults: {n} fields x all interesting values (and intact), hive starting {shifts:?} bytes after a 16-byte boundary inside a larger buffer"),
        n,
        move |idx, c| {
            let (s, j) = cases[idx as usize];
            let (nm, img) = &sd[s as usize];
            let f = &img.fields[j as usize];
            c.sample(|| format!("seed {nm}: {} at {:#x}", f.name, f.pos));
            for sh in shifts {
                let mut b = Placed::new(&img.bytes, *sh);
                for v in std::iter::once(get(&img.bytes, f)).chain(interesting(img, f, false)) {
                    set(b.get_mut(), f, v);
                    walk(c, b.get(), &cfg);
                }
            }
        },
    )
}

/// The smallest hives with a leaf, a two-level index, and a value.
pub fn tiny() -> Vec<(&'static str, Img)> {
    let mut r = Key::l("R").vol(2);
    r.subs = Subs::Root(vec![SubList::Leaf(Lt::Lf, vec![Ent::K(Key::l("a").vol(1))]), SubList::Leaf(Lt::Li, vec![Ent::K(Key::l("b"))])]);
    vec![
        ("tiny-leaf", build_tight(&Key::l("R").vol(3).leaf(Lt::Lh, vec![Key::l("a").vol(1), Key::new(Nm::u("b"))]), 5)),
        ("tiny-index", build_tight(&r, 5)),
        ("tiny-value", build_tight(&Key::l("R").class("C").vals(vec![Val::new(Nm::l("v"), 1, sz("hi\0"))]), 5)),
    ]
}

/// Three fields changed at once in the tiny hives.
pub fn triple_faults(name: &'static str, cfg: Cfg, per: usize) -> Drv {
    let sd = Arc::new(tiny());
    let mut vals: Vec<Vec<Vec<u32>>> = vec![];
    let mut cases: Vec<(u8, u8, u8, u8)> = vec![];
    for (i, (_, s)) in sd.iter().enumerate() {
        let dlen = (s.bytes.len() - BASE) as u32;
        let vv: Vec<Vec<u32>> = s
            .fields
            .iter()
            .map(|f| {
                let mut v = interesting(s, f, true);
                match f.kind {
                    FK::Inert => v.clear(),
                    FK::Ref => v.retain(|x| [NONE, NONE - 7, dlen, dlen - 8, 4].contains(x) || s.cells.iter().any(|(o, _)| o == x)),
                    _ if v.len() > per => {
                        let st = v.len() as f64 / per as f64;
                        v = (0..per).map(|k| v[((k as f64 + 0.5) * st) as usize]).collect();
                    }
                    _ => (),
                }
                v
            })
            .collect();
        let fs: Vec<u8> = (0..s.fields.len()).filter(|j| !vv[*j].is_empty()).map(|j| j as u8).collect();
        for (x, a) in fs.iter().enumerate() {
            for (y, b) in fs.iter().enumerate().skip(x + 1) {
                for d in &fs[y + 1..] {
                    cases.push((i as u8, *a, *b, *d));
                }
            }
        }
        vals.push(vv);
    }
    let n = cases.len() as u64;
    Drv::new(
        name,
        format!("{n} triples of structural fields of 3 tiny hives x up to {per} values each (all cells and extremes for references)"),
        n,
        move |idx, c| {
            let (s, fa, fb, fd) = cases[idx as usize];
            let (nm, img) = &sd[s as usize];
            let v = &vals[s as usize];
            let f = |j: u8| &img.fields[j as usize];
            c.sample(|| format!("seed {nm}: {} x {} x {}", f(fa).name, f(fb).name, f(fd).name));
            let mut buf = img.bytes.clone();
            for x in &v[fa as usize] {
                set(&mut buf, f(fa), *x);
                for y in &v[fb as usize] {
                    set(&mut buf, f(fb), *y);
                    for z in &v[fd as usize] {
                        set(&mut buf, f(fd), *z);
                        walk(c, &buf, &cfg);
                    }
                }
            }
        },
    )
}
