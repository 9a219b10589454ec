// Digest of everything observable of a hive through the public interface, generic over the byte
// buffer. Included by the explorer (mc) and by the probe builds for other targets and features.

use alloc::vec::Vec;
use core::fmt::{self, Write};
use nt_hive::{Hive, KeyNode, KeyValue, KeyValueData, NtHiveError as E, NtHiveNameString, SubKeyNodes};
use zerocopy::SplitByteSlice;

pub struct Fnv(pub u64);
impl Fnv {
    pub fn new() -> Fnv {
        Fnv(0xcbf29ce484222325)
    }
    pub fn b(&mut self, b: &[u8]) {
        let mut x = self.0;
        for c in b.chunks(4) {
            let mut w = c.len() as u64;
            for v in c {
                w = w << 8 | *v as u64;
            }
            x = (x ^ w).wrapping_mul(0x100000001b3);
            x ^= x >> 29;
        }
        self.0 = x;
    }
    pub fn u(&mut self, v: u64) {
        self.0 = (self.0 ^ v).wrapping_mul(0x100000001b3);
        self.0 ^= self.0 >> 31;
    }
}
impl Write for Fnv {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        // the same however the text is cut into pieces
        for c in s.bytes() {
            self.u(c as u64);
        }
        Ok(())
    }
}

/// Which operations: those of the minimal build, or those that need `alloc`.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Part {
    Core,
    Alloc,
}

pub struct D<'l> {
    pub core: Fnv,
    pub alloc: Fnv,
    /// address of the first hive byte
    pub base: usize,
    pub ops: u64,
    pub keys: u32,
    /// fewer probes (for slow interpreters)
    pub lite: bool,
    pub log: Option<&'l mut dyn FnMut(&str, u64)>,
}

const PROBES: [&str; 12] = ["", "a", "A", "b", "c", "e", "ka", "zz", "m", "dW", "\u{e4}", "\u{c4}\u{10400}"];

impl<'l> D<'l> {
    pub fn new(base: *const u8) -> Self {
        D { core: Fnv::new(), alloc: Fnv::new(), base: base as usize, ops: 0, keys: 0, lite: false, log: None }
    }
    fn rec(&mut self, p: Part, what: &str, f: impl FnOnce(&mut Fnv, usize)) {
        self.ops += 1;
        let base = self.base;
        let mut h = Fnv::new();
        f(&mut h, base);
        match p {
            Part::Core => self.core.u(h.0),
            Part::Alloc => self.alloc.u(h.0),
        }
        if let Some(l) = &mut self.log {
            l(what, h.0);
        }
    }
}

/// A size or offset; those that do not fit into 32 bits are all the same.
fn sat(n: usize) -> u64 {
    (n as u64).min(0xFFFF_FFFF)
}

pub fn err(h: &mut Fnv, e: &E) {
    let mut big = false;
    let mut n = |h: &mut Fnv, v: usize| {
        big |= sat(v) == 0xFFFF_FFFF;
        h.u(sat(v));
    };
    h.u(99);
    match e {
        E::InvalidChecksum { expected, actual } => {
            h.u(1);
            h.u(*expected as u64);
            h.u(*actual as u64);
        }
        E::InvalidDataSize { offset, expected, actual } => {
            h.u(2);
            n(h, *offset);
            n(h, *expected);
            n(h, *actual);
        }
        E::InvalidFourByteSignature { offset, expected, actual } => {
            h.u(3);
            n(h, *offset);
            h.b(expected);
            h.b(actual);
        }
        E::InvalidHeaderSize { offset, expected, actual } => {
            h.u(4);
            n(h, *offset);
            n(h, *expected);
            n(h, *actual);
        }
        E::InvalidKeyValueDataType { expected, actual } => {
            h.u(5);
            for t in expected.iter() {
                h.u(*t as u64);
            }
            h.u(*actual as u64);
        }
        E::InvalidSizeField { offset, expected, actual } => {
            h.u(6);
            n(h, *offset);
            n(h, *expected);
            n(h, *actual);
        }
        E::InvalidSizeFieldAlignment { offset, size, expected_alignment } => {
            h.u(7);
            n(h, *offset);
            n(h, *size);
            n(h, *expected_alignment);
        }
        E::InvalidTwoByteSignature { offset, expected, actual } => {
            h.u(8);
            n(h, *offset);
            h.b(expected);
            h.b(actual);
        }
        E::SequenceNumberMismatch { primary, secondary } => {
            h.u(9);
            h.u(*primary as u64);
            h.u(*secondary as u64);
        }
        E::UnallocatedCell { offset, size } => {
            h.u(10);
            n(h, *offset);
            h.u(*size as u32 as u64);
        }
        E::UnsupportedClusteringFactor { expected, actual } => {
            h.u(11);
            h.u(*expected as u64);
            h.u(*actual as u64);
        }
        E::UnsupportedFileFormat { expected, actual } => {
            h.u(12);
            h.u(*expected as u64);
            h.u(*actual as u64);
        }
        E::UnsupportedFileType { expected, actual } => {
            h.u(13);
            h.u(*expected as u64);
            h.u(*actual as u64);
        }
        E::UnsupportedKeyValueDataType { offset, actual } => {
            h.u(14);
            n(h, *offset);
            h.u(*actual as u64);
        }
        E::UnsupportedVersion { major, minor } => {
            h.u(15);
            h.u(*major as u64);
            h.u(*minor as u64);
        }
    }
    if !big {
        let _ = write!(h, "{e}");
    }
}

/// Identity of a slice: position in the hive (only if not empty), length, content.
fn slice(h: &mut Fnv, base: usize, b: &[u8]) {
    h.u(b.len() as u64);
    if !b.is_empty() {
        h.u((b.as_ptr() as usize).wrapping_sub(base) as u32 as u64);
        h.b(b);
    }
}

fn name(h: &mut Fnv, base: usize, n: &NtHiveNameString) {
    match n {
        NtHiveNameString::Latin1(b) => {
            h.u(1);
            slice(h, base, b);
        }
        NtHiveNameString::Utf16LE(b) => {
            h.u(2);
            slice(h, base, b);
        }
    }
}

#[cfg(feature = "alloc")]
fn strings(h: &mut Fnv, n: &NtHiveNameString) {
    match n.to_string_checked() {
        None => h.u(5),
        Some(s) => {
            h.u(6);
            h.b(s.as_bytes());
        }
    }
    h.b(n.to_string_lossy().as_bytes());
}

fn probes(lite: bool) -> &'static [&'static str] {
    if lite {
        &PROBES[1..4]
    } else {
        &PROBES
    }
}

fn name_full(h: &mut Fnv, base: usize, n: &NtHiveNameString, lite: bool) {
    name(h, base, n);
    h.u(n.len() as u64 * 2 + n.is_empty() as u64);
    let _ = write!(h, "{n}");
    for p in probes(lite) {
        h.u((*n == **p) as u64);
        h.u(n.partial_cmp(p).map_or(9, |o| o as i8 as u8 as u64));
        h.u((**p == *n) as u64);
    }
}

fn res<T>(h: &mut Fnv, r: &Result<T, E>, f: impl FnOnce(&mut Fnv, &T)) {
    match r {
        Ok(t) => {
            h.u(1);
            f(h, t)
        }
        Err(e) => err(h, e),
    }
}

fn opt<T>(h: &mut Fnv, r: &Option<Result<T, E>>, f: impl FnOnce(&mut Fnv, &T)) {
    match r {
        None => h.u(7),
        Some(r) => res(h, r, f),
    }
}

pub fn key_id<B: SplitByteSlice>(h: &mut Fnv, base: usize, k: &KeyNode<'_, B>) {
    res(h, &k.name(), |h, n| name(h, base, n));
}
pub fn val_id<B: SplitByteSlice>(h: &mut Fnv, base: usize, v: &KeyValue<'_, B>) {
    res(h, &v.name(), |h, n| name(h, base, n));
    h.u(v.data_size() as u64);
}

pub fn data<B: SplitByteSlice>(h: &mut Fnv, base: usize, d: KeyValueData<'_, B>) {
    match d {
        KeyValueData::Small(b) => {
            h.u(1);
            slice(h, base, b);
        }
        KeyValueData::Big(it) => {
            h.u(2);
            h.u(it.len() as u64);
            for s in it {
                res(h, &s, |h, b| slice(h, base, b));
            }
        }
    }
}

pub fn value<B: SplitByteSlice>(d: &mut D, v: &KeyValue<'_, B>) {
    let lite = d.lite;
    d.rec(Part::Core, "value.id", |h, base| val_id(h, base, v));
    d.rec(Part::Core, "value.name", |h, base| res(h, &v.name(), |h, n| name_full(h, base, n, lite)));
    d.rec(Part::Core, "value.type", |h, _| res(h, &v.data_type(), |h, t| h.u(*t as u64)));
    d.rec(Part::Core, "value.data", |h, base| match v.data() {
        Ok(x) => data(h, base, x),
        Err(e) => err(h, &e),
    });
    d.rec(Part::Core, "value.data.nth", |h, base| {
        if let Ok(KeyValueData::Big(mut it)) = v.data() {
            if let Some(s) = it.nth(1) {
                res(h, &s, |h, b| slice(h, base, b));
            }
            h.u(it.len() as u64);
            h.u(it.count() as u64);
        }
        for k in [usize::MAX, usize::MAX / 2, (1 << 30) - 1, 1 << 18] {
            if let Ok(KeyValueData::Big(mut it)) = v.data() {
                h.u(it.nth(k).is_none() as u64);
                h.u(it.next().is_none() as u64);
            }
        }
    });
    d.rec(Part::Core, "value.dword", |h, _| res(h, &v.dword_data(), |h, t| h.u(*t as u64)));
    d.rec(Part::Core, "value.qword", |h, _| res(h, &v.qword_data(), |h, t| h.u(*t)));
    #[cfg(feature = "alloc")]
    {
        d.rec(Part::Alloc, "value.into_vec", |h, _| match v.data() {
            Ok(x) => res(h, &x.into_vec(), |h, b| {
                h.u(b.len() as u64);
                h.b(b)
            }),
            Err(e) => err(h, &e),
        });
        d.rec(Part::Alloc, "value.string", |h, _| {
            res(h, &v.string_data(), |h, s| {
                h.u(s.len() as u64);
                h.b(s.as_bytes())
            })
        });
        d.rec(Part::Alloc, "value.multi", |h, _| match v.multi_string_data() {
            Ok(it) => {
                let mut failed = false;
                for s in it.take(64) {
                    res(h, &s, |h, s| {
                        h.u(s.len() as u64);
                        h.b(s.as_bytes())
                    });
                    if failed {
                        break;
                    }
                    failed = s.is_err();
                }
            }
            Err(e) => err(h, &e),
        });
        d.rec(Part::Alloc, "value.names", |h, _| {
            if let Ok(n) = v.name() {
                strings(h, &n);
            }
        });
    }
}

pub fn key<B: SplitByteSlice>(d: &mut D, k: &KeyNode<'_, B>) {
    let lite = d.lite;
    d.rec(Part::Core, "key.name", |h, base| res(h, &k.name(), |h, n| name_full(h, base, n, lite)));
    d.rec(Part::Core, "key.class", |h, base| opt(h, &k.class_name(), |h, n| name_full(h, base, n, lite)));
    d.rec(Part::Core, "key.subkeys", |h, base| {
        opt(h, &k.subkeys(), |h, it| {
            h.u(match it {
                SubKeyNodes::IndexRoot(_) => 1,
                SubKeyNodes::Leaf(_) => 2,
            });
            let (lo, hi) = it.size_hint();
            h.u(sat(lo));
            h.u(hi.map_or(0xFFFF_FFFF, sat));
        });
        if let Some(Ok(it)) = k.subkeys() {
            for s in it.take(300) {
                res(h, &s, |h, k| key_id(h, base, k));
            }
        }
        if let Some(Ok(it)) = k.subkeys() {
            h.u(it.count() as u64);
        }
        if let Some(Ok(it)) = k.subkeys() {
            opt(h, &it.last(), |h, k| key_id(h, base, k));
        }
    });
    d.rec(Part::Core, "key.subkeys.nth", |h, base| {
        for n in [0usize, 1, 2, (1 << 29) - 1, 1 << 29, 1 << 30, (1 << 30) + 1, usize::MAX / 2, usize::MAX] {
            if let Some(Ok(mut it)) = k.subkeys() {
                opt(h, &it.nth(n), |h, k| key_id(h, base, k));
                opt(h, &it.next(), |h, k| key_id(h, base, k));
            }
        }
    });
    for p in probes(lite) {
        d.rec(Part::Core, "key.subkey", |h, base| opt(h, &k.subkey(p), |h, k| key_id(h, base, k)));
        d.rec(Part::Core, "key.value", |h, base| opt(h, &k.value(p), |h, k| val_id(h, base, k)));
    }
    d.rec(Part::Core, "key.subpath", |h, base| {
        for p in ["", "\\", "a\\b", "\\b\\\\c\\", "e\\\u{c4}", "a/b"] {
            opt(h, &k.subpath(p), |h, k| key_id(h, base, k));
        }
    });
    d.rec(Part::Core, "key.values", |h, base| {
        opt(h, &k.values(), |h, it| h.u(it.len() as u64));
        if let Some(Ok(it)) = k.values() {
            for s in it.take(300) {
                res(h, &s, |h, k| val_id(h, base, k));
            }
        }
        for n in [1usize, 1 << 30, (1 << 30) + 1, usize::MAX] {
            if let Some(Ok(mut it)) = k.values() {
                opt(h, &it.nth(n), |h, k| val_id(h, base, k));
                h.u(it.len() as u64);
            }
        }
    });
    #[cfg(feature = "alloc")]
    {
        d.rec(Part::Alloc, "key.names", |h, _| {
            if let Ok(n) = k.name() {
                strings(h, &n);
            }
            if let Some(Ok(n)) = k.class_name() {
                strings(h, &n);
            }
        });
        d.rec(Part::Alloc, "key.find", |h, base| {
            if let Some(Ok(it)) = k.subkeys() {
                for s in it.take(16).flatten() {
                    if let Some(n) = s.name().ok().and_then(|n| n.to_string_checked()) {
                        opt(h, &k.subkey(&n), |h, k| key_id(h, base, k));
                    }
                }
            }
            if let Some(Ok(it)) = k.values() {
                for s in it.take(16).flatten() {
                    if let Some(n) = s.name().ok().and_then(|n| n.to_string_checked()) {
                        opt(h, &k.value(&n), |h, k| val_id(h, base, k));
                    }
                }
            }
        });
    }
}

/// Everything reachable, breadth first, at most `max` keys.
pub fn digest<B: SplitByteSlice>(d: &mut D, hive: &Hive<B>, max: usize) {
    d.rec(Part::Core, "validate", |h, _| {
        res(h, &hive.validate(), |_, _| ());
        h.u(hive.major_version() as u64);
        h.u(hive.minor_version() as u64);
    });
    d.rec(Part::Core, "root", |h, base| res(h, &hive.root_key_node(), |h, k| key_id(h, base, k)));
    let Ok(root) = hive.root_key_node() else { return };
    let mut q: Vec<KeyNode<'_, B>> = Vec::new();
    q.push(root);
    let mut i = 0;
    while i < q.len() && i < max {
        d.keys += 1;
        key(d, &q[i]);
        if let Some(Ok(it)) = q[i].values() {
            for v in it.take(12).flatten() {
                value(d, &v);
            }
        }
        let more = match q[i].subkeys() {
            Some(Ok(it)) => it.take(12).flatten().collect::<Vec<_>>(),
            _ => Vec::new(),
        };
        if q.len() < max {
            q.extend(more);
        }
        i += 1;
    }
}

/// What opening says, then the digest.
pub fn open_digest<B: SplitByteSlice>(d: &mut D, bytes: B, max: usize) {
    match Hive::without_validation(bytes) {
        Ok(h) => digest(d, &h, max),
        Err(e) => d.rec(Part::Core, "open", |h, _| err(h, &e)),
    }
}

/// Opening with validation only.
pub fn new_digest<B: SplitByteSlice>(d: &mut D, bytes: B) {
    let r = Hive::new(bytes).map(|_| ());
    d.rec(Part::Core, "Hive::new", |h, _| res(h, &r, |_, _| ()));
}

/// Reads, clears, reads again on one mutable hive.
pub fn clear_digest(d: &mut D, bytes: &mut [u8], max: usize) {
    {
        let Ok(mut h) = Hive::without_validation(&mut *bytes) else { return };
        let r = h.clear_volatile_subkeys();
        d.rec(Part::Core, "clear", |h, _| res(h, &r, |_, _| ()));
        digest(d, &h, max);
    }
    d.rec(Part::Core, "bytes after clearing", |h, _| h.b(bytes));
}
