//! C24, the other meter: how many machine instructions an operation takes as its input grows.
//! Each (operation, size) runs in a process of its own under `callgrind`, which counts those inside
//! `mc_measured` and nothing else; the counts are the same in every run.

use crate::engine::*;
use crate::img::*;
use crate::lists;
use crate::tool;
use nt_hive::*;
use std::fmt::Write as _;
use std::io::Read as _;

const T_WORK: Tags = &["C24"];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Growth {
    /// the size must not matter
    Flat,
    /// with its logarithm at most
    Log,
    /// in proportion to it
    Linear,
}
use Growth::*;

type Op = Box<dyn FnMut() -> u64>;
type Prep = Box<dyn Fn(usize) -> Op + Send + Sync>;

struct Scenario {
    name: String,
    growth: Growth,
    sizes: Vec<usize>,
    prep: Prep,
}

struct Null;
impl std::fmt::Write for Null {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        std::hint::black_box(s);
        Ok(())
    }
}

#[no_mangle]
#[inline(never)]
pub fn mc_measured(f: &mut Op) -> u64 {
    std::hint::black_box(f())
}

type H = Hive<&'static [u8]>;
type K = KeyNode<'static, &'static [u8]>;
type V = KeyValue<'static, &'static [u8]>;

fn leak(b: Vec<u8>) -> &'static [u8] {
    Box::leak(b.into_boxed_slice())
}
fn hive(b: Vec<u8>) -> &'static H {
    Box::leak(Box::new(Hive::new(leak(b)).unwrap()))
}
fn root(b: Vec<u8>) -> &'static K {
    Box::leak(Box::new(hive(b).root_key_node().unwrap()))
}
fn value(b: Vec<u8>) -> &'static V {
    Box::leak(Box::new(root(b).values().unwrap().unwrap().next().unwrap().unwrap()))
}

fn list(form: usize, n: usize) -> Vec<u8> {
    match form {
        0 => lists::big_list(n, Some(LTS[0]), 0).bytes,
        1 => lists::big_list(n, Some(LTS[1]), 0).bytes,
        2 => lists::big_list(n, Some(LTS[2]), 0).bytes,
        3 => lists::big_list(n, None, 1).bytes,
        _ => lists::big_list(n, None, 64).bytes,
    }
}
const FORMS: [&str; 5] = ["fast leaf", "hash leaf", "index leaf", "two levels, one key each", "two levels, 64 keys each"];

/// n values whose names agree up to their ends, each a record of its own
fn vals(n: usize) -> Vec<u8> {
    let v = (0..n).map(|i| Val::new(Nm::l(&format!("value{i:06}")), 4, Dat::Inline(vec![1, 0, 0, 0]))).collect();
    build_tight(&Key::l("R").vals(v), 5).bytes
}

/// one value of these bytes, in as many segments as the format wants, or in one cell
fn data(ty: u32, d: Vec<u8>, big: bool) -> Vec<u8> {
    let (d, minor) = match (big, d.len()) {
        (true, n) if n > SEG => (Dat::Big { data: d, surplus: 0, slack: 0 }, 5),
        _ => (Dat::Cell(d, 0), 3),
    };
    let v = Val::new(Nm::l("d"), ty, d);
    build_tight(&Key::l("R").vals(vec![v]), minor).bytes
}

fn utf16(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect()
}

/// a text of n bytes or so with lines of `line` characters
fn lines(n: usize, line: usize, last: &str) -> Vec<u8> {
    let mut s = String::new();
    while s.len() < n {
        s.extend(std::iter::repeat_n(if s.len() % 3 == 0 { 'a' } else { '\u{e9}' }, line));
        s.push_str(last);
    }
    let mut v = utf16(&s);
    v.truncate(n & !1);
    v
}

fn named(n: usize, latin: bool) -> &'static NtHiveNameString<'static> {
    let s: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
    let nm = if latin { Nm::l(&s) } else { Nm::u(&s) };
    let k: &'static K = root(build_tight(&Key::new(nm), 5).bytes);
    Box::leak(Box::new(k.name().unwrap()))
}

fn scenarios(thorough: bool) -> Vec<Scenario> {
    let mut v: Vec<Scenario> = vec![];
    let mut add = |name: String, growth: Growth, max: usize, prep: Prep| {
        // up to the largest size in steps of 8
        let mut s = vec![max];
        while s[0] >= 8 * 12 && s.len() < if thorough { 5 } else { 4 } {
            s.insert(0, s[0] / 8);
        }
        // data that needs no segments is another matter
        if name.ends_with("(segments)") && growth == Linear {
            s.retain(|n| *n > SEG);
        }
        v.push(Scenario { name, growth, sizes: s, prep });
    };
    let top = if thorough { 65535 } else { 8192 };

    for f in 0..FORMS.len() {
        let n = |s: &str| format!("{s} ({})", FORMS[f]);
        let g = if f < 3 { Flat } else { Linear };
        add(n("iterating over all subkeys"), Linear, top, Box::new(move |n| {
            let k = root(list(f, n));
            Box::new(move || k.subkeys().unwrap().unwrap().map(|x| x.is_ok() as u64).sum())
        }));
        add(n("subkeys and the first of them"), Flat, top, Box::new(move |n| {
            let k = root(list(f, n));
            Box::new(move || {
                let mut it = k.subkeys().unwrap().unwrap();
                it.next().unwrap().is_ok() as u64 + it.size_hint().0 as u64
            })
        }));
        add(n("the last subkey by nth"), g, top, Box::new(move |n| {
            let k = root(list(f, n));
            Box::new(move || k.subkeys().unwrap().unwrap().nth(n - 1).unwrap().is_ok() as u64)
        }));
        add(n("count and last of the subkeys"), g, top, Box::new(move |n| {
            let k = root(list(f, n));
            Box::new(move || {
                let it = k.subkeys().unwrap().unwrap();
                it.clone().count() as u64 + it.last().unwrap().is_ok() as u64
            })
        }));
        for w in 0..4 {
            add(n(["looking up the first subkey", "looking up the last subkey", "looking up a subkey in the middle", "looking up a name that is not there"][w]), Log, top, Box::new(move |n| {
                let k = root(list(f, n));
                let s = match w {
                    0 => lists::big_name(0),
                    1 => lists::big_name(n - 1),
                    2 => lists::big_name(n / 3),
                    _ => lists::big_name(n / 2) + "x",
                };
                Box::new(move || k.subkey(&s).is_some() as u64)
            }));
        }
        add(n("clearing a wide tree"), Linear, top, Box::new(move |n| {
            let b: &'static mut [u8] = Box::leak(list(f, n).into_boxed_slice());
            let mut h = Hive::new(b).unwrap();
            Box::new(move || h.clear_volatile_subkeys().is_ok() as u64)
        }));
    }
    add("clearing a deep tree".into(), Linear, 1024, Box::new(|n| {
        let b: &'static mut [u8] = Box::leak(tool::chain(n).into_boxed_slice());
        let mut h = Hive::new(b).unwrap();
        Box::new(move || h.clear_volatile_subkeys().is_ok() as u64)
    }));

    add("iterating over all values".into(), Linear, top, Box::new(|n| {
        let k = root(vals(n));
        Box::new(move || k.values().unwrap().unwrap().map(|x| x.is_ok() as u64).sum())
    }));
    add("values: length, first, last, nth".into(), Flat, top, Box::new(|n| {
        let k = root(vals(n));
        Box::new(move || {
            let it = k.values().unwrap().unwrap();
            let a = it.len() + it.size_hint().0 + it.clone().count();
            a as u64 + it.clone().last().is_some() as u64 + it.clone().nth(n - 1).is_some() as u64 + it.clone().nth(n).is_some() as u64 + it.clone().next().is_some() as u64
        })
    }));
    for w in 0..2 {
        add(["looking up the last value", "looking up a value that is not there"][w].into(), Linear, top, Box::new(move |n| {
            let k = root(vals(n));
            let s = if w == 0 { format!("value{:06}", n - 1) } else { "value".into() };
            Box::new(move || k.value(&s).is_some() as u64)
        }));
    }

    // sizes in bytes
    let bytes = if thorough { 1 << 20 } else { 1 << 18 };
    for big in [false, true] {
        let n = |s: &str| format!("{s} ({})", if big { "segments" } else { "one cell" });
        add(n("data, its size and type"), Flat, 64 * bytes, Box::new(move |n| {
            let v = value(data(3, vec![7; n], big));
            Box::new(move || v.data().is_ok() as u64 + v.data_size() as u64 + v.data_type().is_ok() as u64 + v.dword_data().is_ok() as u64 + v.qword_data().is_ok() as u64 + v.string_data().is_ok() as u64)
        }));
        add(n("segments: length, first, last, nth"), Flat, 64 * bytes, Box::new(move |n| {
            let v = value(data(3, vec![7; n], big));
            Box::new(move || match v.data().unwrap() {
                KeyValueData::Small(b) => b.len() as u64,
                KeyValueData::Big(it) => {
                    let k = it.len();
                    it.clone().count() as u64 + it.clone().last().is_some() as u64 + it.clone().nth(k - 1).is_some() as u64 + it.clone().nth(k).is_some() as u64 + it.clone().next().is_some() as u64
                }
            })
        }));
        add(n("all bytes in one piece"), Linear, 32 * bytes, Box::new(move |n| {
            let v = value(data(3, vec![7; n], big));
            Box::new(move || v.data().unwrap().into_vec().unwrap().len() as u64)
        }));
        for (last, what) in [("", "string of one character over and over"), ("\u{10400}", "string with surrogate pairs"), ("\n", "string with line ends")] {
            add(n(what), Linear, bytes, Box::new(move |n| {
                let v = value(data(1, lines(n, 1, last), big));
                Box::new(move || v.string_data().unwrap().len() as u64)
            }));
        }
        for (line, what) in [(1, "strings of 1 character"), (63, "strings of 63 characters"), (5000, "strings of 5000 characters"), (1 << 30, "one string")] {
            add(n(&format!("multi-string of {what}")), Linear, bytes, Box::new(move |n| {
                let v = value(data(7, lines(n, line.min(n), "\0"), big));
                Box::new(move || v.multi_string_data().unwrap().map(|s| s.unwrap().len() as u64).sum())
            }));
        }
        add(n("a string that ends at once"), Linear, bytes, Box::new(move |n| {
            let v = value(data(1, vec![0; n], big));
            Box::new(move || v.string_data().unwrap().len() as u64)
        }));
    }
    add("opening a hive".into(), Flat, 64 * bytes, Box::new(|n| {
        let b = data(3, vec![7; n], false);
        let b = leak(b);
        Box::new(move || {
            let h = Hive::new(b).unwrap();
            h.validate().is_ok() as u64 + h.root_key_node().is_ok() as u64 + h.minor_version() as u64
        })
    }));

    // sizes in characters of a name
    let len = 32760;
    for latin in [true, false] {
        let n = |s: &str| format!("{s} ({})", if latin { "Latin-1" } else { "UTF-16" });
        add(n("converting a name"), Linear, len, Box::new(move |n| {
            let s = named(n, latin);
            Box::new(move || s.to_string_lossy().len() as u64 + s.to_string_checked().is_some() as u64)
        }));
        add(n("printing a name"), Linear, len, Box::new(move |n| {
            let s = named(n, latin);
            Box::new(move || {
                let _ = write!(Null, "{s}");
                let _ = write!(Null, "{s:?}");
                let _ = write!(Null, "{s:>10}|{s:.7}");
                s.len() as u64
            })
        }));
        for other in [true, false] {
            add(n(&format!("comparing a name with one in {}", if other { "Latin-1" } else { "UTF-16" })), Linear, len, Box::new(move |n| {
                let (a, b) = (named(n, latin), named(n, other));
                Box::new(move || (a == b) as u64 + a.partial_cmp(b).is_some() as u64 + a.cmp(b).is_eq() as u64)
            }));
        }
        add(n("comparing a name with a string"), Linear, len, Box::new(move |n| {
            let a = named(n, latin);
            let s = a.to_string_lossy().to_uppercase();
            Box::new(move || (*a == *s.as_str()) as u64 + (*s.as_str() == *a) as u64 + a.partial_cmp(s.as_str()).is_some() as u64)
        }));
        add(n("looking up one long name"), Linear, len, Box::new(move |n| {
            let s: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
            let nm = || if latin { Nm::l(&s) } else { Nm::u(&s) };
            let k = Key::l("R").leaf(LTS[0], vec![Key::new(nm())]).vals(vec![Val::new(nm(), 4, Dat::Inline(vec![0; 4]))]);
            let k = root(build_tight(&k, 5).bytes);
            Box::new(move || k.subkey(&s).is_some() as u64 + k.value(&s).is_some() as u64 + k.subpath(&s).is_some() as u64)
        }));
    }

    // sizes in components or characters of a path
    for (what, sep) in [("a path through a cycle", "\\"), ("a path with doubled separators", "\\\\")] {
        add(what.into(), Linear, top, Box::new(move |n| {
            let k = root(tool::cycle(1));
            let one = k.subkeys().unwrap().unwrap().next().unwrap().unwrap().name().unwrap().to_string_lossy();
            let p = vec![one; n].join(sep);
            Box::new(move || k.subpath(&p).is_some() as u64)
        }));
    }
    add("a path of separators".into(), Linear, 4 * top, Box::new(|n| {
        let k = root(tool::cycle(1));
        let p = "\\".repeat(n);
        Box::new(move || k.subpath(&p).is_some() as u64)
    }));
    add("a path of one long component".into(), Linear, 4 * top, Box::new(|n| {
        let k = root(tool::cycle(1));
        let p = "k".repeat(n);
        Box::new(move || k.subpath(&p).is_some() as u64 + k.subkey(&p).is_some() as u64)
    }));
    v
}

/// The process that is measured.
pub fn exec(name: &str, n: usize) -> i32 {
    let all = scenarios(false);
    let Some(s) = all.iter().find(|s| s.name == name) else { return 3 };
    let mut f = (s.prep)(n);
    // once before, so that whatever is set up on first use is no matter
    if !name.starts_with("clearing") {
        f();
    }
    // (the counters are reset by clearing: a second time does the same work)
    mc_measured(&mut f);
    0
}

enum Got {
    Count(u64),
    /// no callgrind here
    Unable(String),
    TooLong,
    Died(String),
}

fn measure(name: &str, n: usize) -> Got {
    let exe = std::env::current_exe().unwrap();
    let r = std::process::Command::new("valgrind")
        .args(["--tool=callgrind", "--callgrind-out-file=/dev/null", "--toggle-collect=mc_measured", "--main-stacksize=67108864"])
        .arg(exe)
        .args(["exec-work", name, &n.to_string()])
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::piped())
        .spawn();
    let mut ch = match r {
        Ok(c) => c,
        Err(e) => return Got::Unable(e.to_string()),
    };
    let mut err = ch.stderr.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = err.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let t = std::time::Instant::now();
    let st = loop {
        match ch.try_wait() {
            Ok(Some(st)) => break Some(st),
            Ok(None) if t.elapsed().as_secs() > 60 => {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            Ok(None) => std::thread::sleep(std::time::Duration::from_millis(10)),
            Err(e) => return Got::Unable(e.to_string()),
        }
    };
    let s = rd.join().unwrap();
    let Some(st) = st else { return Got::TooLong };
    if !s.contains("Collected :") {
        return Got::Unable(s.lines().take(3).collect::<Vec<_>>().join(" / "));
    }
    if !st.success() {
        return Got::Died(format!("{st}: {}", s.lines().filter(|l| !l.starts_with("==")).take(3).collect::<Vec<_>>().join(" / ")));
    }
    match s.split("Collected :").nth(1).and_then(|r| r.split_whitespace().next()).and_then(|x| x.parse().ok()) {
        Some(x) => Got::Count(x),
        None => Got::Unable(s),
    }
}

/// What a size may take, given what the size before took.
fn allowed(g: Growth, before: u64, factor: u64) -> u64 {
    match g {
        Flat => 2 * before + 3000,
        Log => 3 * before + 6000,
        Linear => 3 * factor * before + 200_000,
    }
}

pub fn growth(name: &'static str, thorough: bool) -> Drv {
    let s = scenarios(thorough);
    let n = s.len() as u64;
    let sz: usize = s.iter().map(|s| s.sizes.len()).sum();
    Drv::new(
        name,
        format!("{n} operations, each at up to {} sizes growing by 8 ({sz} runs), machine instructions counted: where the size grows by 8, the count may grow not at all (factor 2), with the logarithm (factor 3) or in proportion (factor 24)", if thorough { 5 } else { 4 }),
        n,
        move |i, c| {
            let s = &s[i as usize];
            c.sample(|| format!("{}: {:?} at {:?}", s.name, s.growth, s.sizes));
            let mut before: Option<(usize, u64)> = None;
            for &n in &s.sizes {
                match measure(&s.name, n) {
                    Got::Count(x) => {
                        if std::env::var("TOPS").is_ok() {
                            eprintln!("WORK {:?} {} {n} {x}", s.growth, s.name);
                        }
                        c.states += 1;
                        c.transitions += 1;
                        c.outcome(x);
                        if let Some((m, y)) = before {
                            if x > allowed(s.growth, y, n.div_ceil(m) as u64) {
                                c.report(T_WORK, format!("{}: {y} instructions for size {m}, {x} for size {n}", s.name), None);
                                return;
                            }
                        }
                        before = Some((n, x));
                    }
                    Got::Unable(e) => {
                        c.sample(|| format!("NOT MEASURED: {e}"));
                        eprintln!("{}: not measured: {e}", s.name);
                        return;
                    }
                    Got::TooLong => {
                        c.report(T_WORK, format!("{}: {before:?} instructions for the size before, size {n} does not end", s.name), None);
                        return;
                    }
                    Got::Died(e) => {
                        c.report(&["C01", "C24"], format!("{} at size {n}: {e}", s.name), None);
                        return;
                    }
                }
            }
        },
    )
    .chunk(1)
}
