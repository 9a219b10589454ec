//! C20: the readhive example, run as a process on enumerated files.

use crate::clear::trees;
use crate::cross::{self, Item};
use crate::engine::*;
use crate::faults;
use crate::img::*;
use crate::lists;
use crate::model::*;
use crate::vals;
use nt_hive::KeyValueDataType as VT;
use std::io::Read;
use std::process::{Command, Stdio};

const T: Tags = &["C20"];

struct Out {
    s: String,
    /// output lengths at which stopping with an error is acceptable as well
    alts: Vec<usize>,
    /// what is damaged, once stopped
    stop: Option<String>,
    keys: u64,
}

fn lossy(m: &Model, n: MName) -> String {
    decode(&m.name_units(n)).0
}

/// What the tool must print, and whether it must succeed. None: cyclic, or too large to print.
fn render(b: &[u8]) -> Option<Out> {
    let mut o = Out { s: String::new(), alts: vec![], stop: None, keys: 0 };
    let m = Model::new(b);
    if b.len() < BASE || m.header_error().is_some() {
        o.stop = Some("header".into());
        return Some(o);
    }
    let root = match m.root() {
        Ok(r) => r,
        Err(_) => {
            o.stop = Some("root key".into());
            return Some(o);
        }
    };
    let n = match m.key_name(root) {
        Ok(n) => n,
        Err(_) => {
            o.stop = Some("root name".into());
            return Some(o);
        }
    };
    let (_, _, paths, cyc) = m.reachable(200_000);
    if cyc || paths >= 200_000 {
        return None;
    }
    o.s += &format!("{}\n", lossy(&m, n));
    // explicit stack: (entries, index, level)
    let mut st: Vec<(Vec<R<MKey>>, usize, usize)> = vec![];
    macro_rules! stop {
        ($e:expr) => {{
            o.stop = Some($e.to_string());
            return Some(o);
        }};
    }
    match m.subkeys(root) {
        None => (),
        Some(Err(_)) => stop!("root subkeys"),
        Some(Ok(s)) => st.push((s.ents, 0, 0)),
    }
    while let Some((ents, i, level)) = st.last_mut() {
        if *i == ents.len() {
            st.pop();
            continue;
        }
        let e = ents[*i].clone();
        let level = *level;
        *i += 1;
        let Ok(k) = e else { stop!("subkey entry") };
        o.keys += 1;
        let Ok(n) = m.key_name(k) else { stop!("key name") };
        let ind = "  ".repeat(level);
        o.s += &format!("{ind}\u{25cf} {}\n", lossy(&m, n));
        match m.class_name(k) {
            None => (),
            Some(Err(_)) => stop!("class name"),
            Some(Ok(c)) => o.s += &format!("{ind}  Class Name: {}\n", lossy(&m, c)),
        }
        match m.values(k) {
            None => (),
            Some(Err(_)) => stop!("values"),
            Some(Ok(vs)) => {
                for v in vs {
                    let Ok(v) = v else { stop!("value entry") };
                    let Ok(n) = m.val_name(v) else { stop!("value name") };
                    let mut n = lossy(&m, n);
                    if n.is_empty() {
                        n = "(Default)".into();
                    }
                    let Ok(t) = m.data_type(v) else { stop!("value type") };
                    o.s += &format!("{ind}  \u{25cb} {n} - {t:?} - {}\n{ind}    ", m.data_size(v));
                    match t {
                        VT::RegSZ | VT::RegExpandSZ => {
                            let (s, either) = m.string(v);
                            if either {
                                o.alts.push(o.s.len());
                            }
                            match s {
                                Ok(s) => o.s += &s,
                                Err(_) => stop!("string data"),
                            }
                        }
                        VT::RegBinary => match m.data(v) {
                            Ok(MData::Small(s, e)) => o.s += &format!("{:?}", &b[s..e]),
                            Ok(MData::Big(_)) => o.s += "BIG DATA",
                            Err(_) => stop!("binary data"),
                        },
                        VT::RegDWord | VT::RegDWordBigEndian => match m.dword(v) {
                            Ok(d) => o.s += &d.to_string(),
                            Err(_) => stop!("dword data"),
                        },
                        VT::RegMultiSZ => match m.multi(v) {
                            Ok((l, None, either)) => {
                                if either {
                                    o.alts.push(o.s.len());
                                }
                                o.s += &format!("{l:?}")
                            }
                            _ => stop!("multi-string data"),
                        },
                        VT::RegQWord => match m.qword(v) {
                            Ok(d) => o.s += &d.to_string(),
                            Err(_) => stop!("qword data"),
                        },
                        _ => (),
                    }
                    o.s += "\n";
                }
            }
        }
        match m.subkeys(k) {
            None => (),
            Some(Err(_)) => stop!("subkeys"),
            Some(Ok(s)) => st.push((s.ents, 0, level + 1)),
        }
    }
    Some(o)
}

fn scratch() -> std::path::PathBuf {
    let d = verif_dir().join("target/run").join(format!("c20-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d
}

pub fn cleanup() {
    let d = verif_dir().join("target/run").join(format!("c20-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
}

struct Ran {
    out: Vec<u8>,
    err: String,
    code: Option<i32>,
}

fn exec(args: &[&str], keep: usize) -> Ran {
    let mut c = Command::new("timeout");
    c.args(["-k", "1", "60"]).arg(verif_dir().join("target/bin/readhive")).args(args);
    let mut ch = c
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("readhive");
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let t = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = se.read_to_end(&mut s);
        s
    });
    let mut out = vec![];
    let mut buf = vec![0u8; 1 << 16];
    while let Ok(n) = so.read(&mut buf) {
        if n == 0 {
            break;
        }
        if out.len() < keep {
            out.extend_from_slice(&buf[..n]);
        }
    }
    let st = ch.wait().unwrap();
    Ran { out, err: String::from_utf8_lossy(&t.join().unwrap()).into_owned(), code: st.code() }
}

fn run_file(b: &[u8], keep: usize) -> Ran {
    let p = scratch().join(format!("{:?}.hive", std::thread::current().id()));
    std::fs::write(&p, b).expect("scratch file");
    exec(&[p.to_str().unwrap()], keep)
}

fn failed_cleanly(r: &Ran) -> bool {
    r.code == Some(1) && r.err.contains("Error") && !r.err.contains("panicked")
}

pub fn check_image(c: &mut Ctx, what: &str, b: &[u8]) {
    let Some(want) = render(b) else { return };
    c.states += 1 + want.keys;
    c.transitions += 1;
    let r = run_file(b, usize::MAX);
    let same = |a: &[u8], w: &[u8]| a == w;
    match &want.stop {
        Some(why) => {
            c.outcome(why.len() as u64 * 31 + why.as_bytes()[0] as u64);
            let ok = failed_cleanly(&r) && (same(&r.out, want.s.as_bytes()) || want.alts.iter().any(|a| same(&r.out, &want.s.as_bytes()[..*a])));
            if !ok {
                let key = (why == "root name" && r.code == Some(101) && r.err.contains("readhive.rs") && r.err.contains("unwrap")).then_some("root-name");
                c.report_key(T, key, format!("{what}: damaged ({why}): exit {:?}, {} of {} bytes printed before the damage, stderr {:?}", r.code, r.out.len(), want.s.len(), r.err.lines().find(|l| !l.is_empty()).unwrap_or("")), Some(b));
            }
        }
        None => {
            c.outcome(7);
            let ok = r.code == Some(0) && same(&r.out, want.s.as_bytes());
            let alt = failed_cleanly(&r) && want.alts.iter().any(|a| same(&r.out, &want.s.as_bytes()[..*a]));
            if !ok && !alt {
                let d = r.out.iter().zip(want.s.as_bytes()).position(|(a, b)| a != b).unwrap_or(r.out.len().min(want.s.len()));
                let lo = want.s.as_bytes()[..d].iter().rposition(|x| *x == b'\n').map_or(0, |x| x + 1);
                let line = |s: &[u8]| String::from_utf8_lossy(&s[lo.min(s.len())..]).lines().next().unwrap_or("").to_string();
                c.report(
                    T,
                    format!("{what}: exit {:?}; first difference at output byte {d}: printed {:?}, expected {:?}; stderr {:?}", r.code, line(&r.out), line(want.s.as_bytes()), r.err.lines().next().unwrap_or("")),
                    Some(b),
                );
            }
        }
    }
}

pub fn items(name: &'static str, what: &str, items: Vec<Item>) -> Drv {
    let n = items.len() as u64;
    Drv::new(name, format!("{n} files ({what}), output and exit status compared with the model's rendering"), n, move |idx, c| {
        let it = &items[idx as usize];
        c.sample(|| it.what());
        check_image(c, &it.what(), &it.bytes());
    })
}

/// Key trees with values and classes at every node.
pub fn tree_items(max: usize) -> Vec<Item> {
    let mut v = vec![];
    for n in 1..=max {
        for t in trees(n) {
            for f in 0..3u32 {
                fn make(t: &[usize], at: &mut usize, f: u32) -> Key {
                    let id = *at;
                    *at += 1;
                    let mut k = match id % 3 {
                        0 => Key::l(&format!("k{id}")),
                        1 => Key::new(Nm::u(&format!("\u{e4}\u{4e2d}{id}"))),
                        _ => Key::new(Nm::U(vec![0x6b, 0xd800, 0x30 + id as u16])),
                    };
                    if id % 2 == 1 {
                        k = k.class("Cl\u{df}");
                    }
                    if id % 4 != 2 {
                        let all = [
                            Val::new(Nm::l(""), 1, Dat::Inline(vec![0x41, 0])),
                            Val::new(Nm::l("q"), 11, Dat::Cell(vec![1, 2, 3, 4, 5, 6, 7, 200], 0)),
                            Val::new(Nm::u("d"), 4, Dat::Inline(vec![1, 2, 3, 200])),
                            Val::new(Nm::l("m"), 7, Dat::Cell(faults::u16s("a\0\"b\\\0\0"), 0)),
                            Val::new(Nm::l("b"), 3, Dat::Cell(pattern(7, 3), 0)),
                        ];
                        k = k.vals((0..=id % 5).map(|i| all[(i + id) % 5].clone()).collect());
                    }
                    let kids: Vec<Ent> = (0..t[id]).map(|_| Ent::K(make(t, at, f))).collect();
                    let n = kids.len();
                    if n > 0 {
                        k.subs = lists::store(
                            &match (f, n) {
                                (0, _) => lists::St::Flat(LTS[id % 3]),
                                (1, n) => lists::St::Ri(vec![(LTS[id % 3], n)]),
                                (_, n) => lists::St::Ri((0..n).map(|i| (LTS[(i + id) % 3], 1)).collect()),
                            },
                            kids,
                        );
                    }
                    k
                }
                let k = make(&t, &mut 0, f);
                v.push(Item::new(&format!("tree {t:?}, formats {f}"), build(&k, 5).bytes));
            }
        }
    }
    v
}

/// One value of every type and size below a subkey.
pub fn value_items(thorough: bool) -> Vec<Item> {
    let mut v = vec![];
    for minor in [3u32, 5] {
        for ty in (0..13u32).chain([0xFFFF_FFFF]) {
            for n in (0..=10usize).chain([16, 17, 16344]) {
                let d: Vec<u8> = (0..n).map(|i| [0x41, 0, 0x20, 0xd8, 0x42, 0, 0, 0, 0x22, 0, 0x43][i % 11]).collect();
                let mut dats = vec![Dat::Cell(d.clone(), 0)];
                if n <= 4 {
                    dats.push(Dat::Inline(d));
                }
                for dat in dats {
                    let k = Key::l("r").leaf(Lt::Lf, vec![Key::l("k").vals(vec![Val::new(Nm::l("v"), ty, dat)])]);
                    v.push(Item::new(&format!("type {ty:#x}, {n} bytes, minor {minor}"), build(&k, minor).bytes));
                }
            }
        }
    }
    for ty in [1u32, 2, 3, 7] {
        for n in [16344usize, 16346, 32688, 32690, 40001].into_iter().chain(if thorough { 49000..49040 } else { 0..0 }) {
            for minor in [3u32, 4, 6] {
                let d: Vec<u8> = (0..n).map(|i| if i % 2 == 1 { 0 } else if i % 5002 == 5000 { 0 } else { 0x61 + (i % 26) as u8 }).collect();
                let dat = if n <= SEG || minor < 4 { Dat::Cell(d, 0) } else { Dat::Big { data: d, surplus: 0, slack: 0 } };
                let k = Key::l("r").leaf(Lt::Lf, vec![Key::l("k").vals(vec![Val::new(Nm::l("v"), ty, dat)])]);
                v.push(Item::new(&format!("type {ty:#x}, {n} bytes, minor {minor}"), build(&k, minor).bytes));
            }
        }
    }
    let _ = vals::seg_many;
    v
}

/// Every code unit, awkward names, extreme lengths and large counts in every printed place.
pub fn odd_items(thorough: bool) -> Vec<Item> {
    let mut v = vec![];
    let put = |v: &mut Vec<Item>, what: &str, k: Key| {
        v.push(Item::new(what, build(&Key::l("r").leaf(Lt::Li, vec![k]), 5).bytes));
    };
    let le = |u: &[u16]| u.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
    let key = |u: &[u16], kids: bool| {
        let mut m = u.to_vec();
        m.push(0);
        m.extend_from_slice(u);
        m.extend_from_slice(&[0, 0]);
        let mut k = Key::new(Nm::U(u.to_vec())).vals(vec![Val::new(Nm::U(u.to_vec()), 1, Dat::Cell(le(u), 0)), Val::new(Nm::l("m"), 7, Dat::Cell(le(&m), 0))]);
        k.class = Some(le(u));
        if kids {
            k = k.leaf(Lt::Lf, vec![Key::new(Nm::U(u.to_vec()))]);
        }
        k
    };
    for lo in (0..0x10000u32).step_by(256) {
        let ks = (lo..lo + 256).map(|u| key(&[u as u16], false)).collect();
        put(&mut v, &format!("units {lo:#x}.."), Key::l("k").leaf(Lt::Lh, ks));
    }
    for lo in [0u32, 128] {
        let ks = (lo..lo + 128).map(|u| Key::new(Nm::L(vec![u as u8])).vals(vec![Val::new(Nm::L(vec![0x41, u as u8]), 2, Dat::Inline(vec![u as u8, 0]))])).collect();
        put(&mut v, &format!("Latin-1 bytes {lo:#x}.."), Key::l("k").leaf(Lt::Lh, ks));
    }
    for s in lists::ODD {
        let u: Vec<u16> = s.encode_utf16().collect();
        put(&mut v, &format!("everything named {s:?}"), key(&u, true));
    }
    let mut lens = vec![0usize, 1, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 1024, 4096, 8191, 8192, 16383, 16384, 32766, 32767];
    if thorough {
        lens.extend(2..700);
    }
    for n in lens {
        let w: Vec<u16> = (0..n).map(|i| 0x61 + (i % 26) as u16).collect();
        put(&mut v, &format!("names of {n} characters, UTF-16"), key(&w, true));
        for n in [n, 2 * n, 2 * n + 1] {
            let b: Vec<u8> = (0..n).map(|i| 0x61 + (i % 26) as u8).collect();
            put(&mut v, &format!("names of {n} characters, Latin-1"), Key::new(Nm::L(b.clone())).vals(vec![Val::new(Nm::L(b.clone()), 4, Dat::Inline(vec![1, 2, 3, 4]))]).leaf(Lt::Lf, vec![Key::new(Nm::L(b))]));
        }
    }
    // characters of 2, 3 and 4 bytes at every distance from the start
    for n in [40usize, 300, 1100, 5000, 16380] {
        for lead in 0..4usize {
            for (i, rest) in [&[0xE9u16][..], &[0x61, 0xFF], &[0x3042], &[0xD83D, 0xDE00], &[0x61, 0x3042, 0xD83D, 0xDE00]].into_iter().enumerate() {
                let w: Vec<u16> = (0..n).map(|i| if i < lead { 0x2D } else { rest[(i - lead) % rest.len()] }).collect();
                let mut k = key(&w, true);
                if i < 2 {
                    let b: Vec<u8> = w.iter().map(|u| *u as u8).collect();
                    k = Key::new(Nm::L(b.clone())).class("c").vals(vec![Val::new(Nm::L(b), 1, Dat::Cell(le(&w), 0))]).leaf(Lt::Lf, vec![k]);
                }
                put(&mut v, &format!("{n} units of {rest:x?} behind {lead} others"), k);
            }
        }
    }
    for n in [0usize, 1, 2, 127, 128, 255, 256, 257, 1000, 4096, 5000, 65536, 70000] {
        let vals = (0..n).map(|i| Val::new(Nm::l(&format!("v{i}")), 4, Dat::Inline((i as u32).to_le_bytes().to_vec()))).collect();
        put(&mut v, &format!("{n} values"), Key::l("k").vals(vals));
        let mut m = vec![];
        for i in 0..n.min(7000) {
            m.extend(format!("s{i}").encode_utf16());
            m.push(0);
        }
        m.push(0);
        let d = le(&m);
        let dat = if d.len() <= SEG { Dat::Cell(d, 0) } else { Dat::Big { data: d, surplus: 0, slack: 0 } };
        put(&mut v, &format!("{n} strings"), Key::l("k").vals(vec![Val::new(Nm::l("m"), 7, dat)]));
        if n > 0 && n < 65536 {
            let ks = (0..n).map(|i| Key::l(&format!("{i:05}"))).collect();
            put(&mut v, &format!("{n} subkeys"), Key::l("k").leaf(Lt::Li, ks));
        }
    }
    for (ty, n) in [(4u32, 4usize), (5, 4), (11, 8)] {
        for i in 0..n {
            let vals = (0..256u32).map(|x| {
                let mut d = vec![0u8; n];
                d[i] = x as u8;
                Val::new(Nm::l(&format!("v{x}")), ty, Dat::Cell(d, 0))
            });
            put(&mut v, &format!("numbers of type {ty}, byte {i}"), Key::l("k").vals(vals.collect()));
        }
    }
    v
}

/// A hive whose every part lies below a subkey, for the fault enumeration.
pub fn seed() -> Img {
    let mut k = Key::l("Root").class("Cr");
    let mut a = Key::l("alpha").class("Ca").vals(vec![
        Val::new(Nm::l(""), 1, faults::sz("hi\0")),
        Val::new(Nm::u("Dw"), 4, Dat::Inline(vec![1, 2, 3, 4])),
        Val::new(Nm::l("be"), 5, Dat::Cell(vec![1, 2, 3, 4], 0)),
        Val::new(Nm::l("Q"), 11, Dat::Cell(vec![1, 2, 3, 4, 5, 6, 7, 8], 0)),
        Val::new(Nm::l("m"), 7, Dat::Cell(faults::u16s("x\0yz\0\0"), 2)),
        Val::new(Nm::l("b"), 3, Dat::Cell(vec![0, 1, 2, 255, 3, 9], 2)),
        Val::new(Nm::l("n"), 0, Dat::Inline(vec![5])),
    ]);
    a.subs = Subs::Root(vec![
        SubList::Leaf(Lt::Lh, vec![Ent::K(Key::l("a1").vals(vec![Val::new(Nm::l("x"), 2, Dat::Inline(vec![0x41, 0, 0x42, 0]))]))]),
        SubList::Leaf(Lt::Li, vec![Ent::K(Key::new(Nm::u("b\u{4e2d}")).class("Cb")), Ent::K(Key::l("c"))]),
    ]);
    k.subs = Subs::Leaf(Lt::Lf, vec![Ent::K(a), Ent::K(Key::l("beta").leaf(Lt::Li, vec![Key::l("g").leaf(Lt::Lf, vec![Key::l("h")])]))]);
    build(&k, 5)
}

/// Wrong invocations: no argument, no such file, a directory, an empty file.
pub fn invocations(name: &'static str) -> Drv {
    Drv::new(name, "no argument, a missing file, a directory, empty and short files", 6, |idx, c| {
        let dir = scratch();
        let r = match idx {
            0 => exec(&[], usize::MAX),
            1 => exec(&[dir.join("missing").to_str().unwrap()], usize::MAX),
            2 => exec(&[dir.to_str().unwrap()], usize::MAX),
            3 => run_file(b"", usize::MAX),
            4 => run_file(b"regf", usize::MAX),
            _ => run_file(&[0x55; 9000], usize::MAX),
        };
        c.states += 1;
        c.transitions += 1;
        c.sample(|| format!("invocation {idx}"));
        let ok = if idx == 0 {
            r.code.is_some_and(|c| c <= 1) && !r.err.contains("panicked") && (!r.out.is_empty() || !r.err.is_empty())
        } else {
            failed_cleanly(&r) && r.out.is_empty()
        };
        if !ok {
            c.report(T, format!("invocation {idx}: exit {:?}, stdout {:?}, stderr {:?}", r.code, String::from_utf8_lossy(&r.out), r.err), None);
        }
    })
}

pub fn chain(n: usize) -> Vec<u8> {
    let mut b = B::quiet();
    let mut k = b.nk(&Key::l("k"), 0);
    for _ in 1..n {
        let l = b.leaf(Lt::Li, &[(k, [0; 4], [0; 4])], 0);
        k = b.nk(&Key::l("k"), 0);
        b.set_subs(k, l, 1);
    }
    b.finish(k, 5).bytes
}

pub fn cycle(n: usize) -> Vec<u8> {
    let mut b = B::quiet();
    let ks: Vec<u32> = (0..n).map(|_| b.nk(&Key::l("k"), 0)).collect();
    for i in 0..n {
        let l = b.leaf(Lt::Lf, &[(ks[(i + 1) % n], *b"k\0\0\0", [0; 4])], 0);
        b.set_subs(ks[i], l, 1);
    }
    b.finish(ks[0], 5).bytes
}

/// The registry's depth limit, far more than that, and hives that contain themselves.
pub fn deep(name: &'static str, thorough: bool) -> Drv {
    let n = if thorough { 7 } else { 4 };
    Drv::new(name, "chains of 1, 512 and 2000 keys; 100000 keys; keys that are their own ancestor (1, 2 and 5 keys)", n, |idx, c| {
        c.sample(|| format!("deep case {idx}"));
        match idx {
            0 | 1 => check_image(c, "chain", &chain([512, 2000][idx as usize])),
            2 => {
                let b = chain(100_000);
                c.states += 100_000;
                c.transitions += 1;
                let r = run_file(&b, 1000);
                if r.code != Some(0) && !failed_cleanly(&r) {
                    let key = r.err.contains("overflowed its stack").then_some("deep-chain");
                    c.report_key(T, key, format!("a chain of 100000 keys: exit {:?}, stderr {:?}", r.code, r.err.lines().find(|l| !l.is_empty()).unwrap_or("")), None);
                }
            }
            k => {
                let n = [1, 2, 5, 3][k as usize - 3];
                let b = cycle(n);
                c.states += n as u64;
                c.transitions += 1;
                let r = run_file(&b, 1000);
                if !failed_cleanly(&r) {
                    let key = r.err.contains("overflowed its stack").then_some("cyclic");
                    c.report_key(T, key, format!("a cycle of {n} keys: exit {:?}, stderr {:?}", r.code, r.err.lines().find(|l| !l.is_empty()).unwrap_or("")), Some(&b));
                }
            }
        }
    })
}

pub fn fault_items(thorough: bool) -> Vec<Item> {
    let s = seed();
    let mut v = cross::field_items(&[("tool-seed", s.clone())]);
    if thorough {
        v.extend(cross::byte_items(&[("tool-seed", s)], &(0..=255).collect::<Vec<u8>>()));
    } else {
        v.extend(cross::byte_items(&[("tool-seed", s)], &[0x00, 0x01, 0x80, 0xff]));
    }
    v
}

pub fn truncated_items() -> Vec<Item> {
    let s = seed();
    (0..s.bytes.len())
        .step_by(5)
        .chain(s.used_end - 600..s.bytes.len().min(s.used_end + 8))
        .map(|n| Item::new(&format!("first {n} bytes"), s.bytes[..n].to_vec()))
        .collect()
}
