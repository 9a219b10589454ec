//! Reference model: an independent reading of the hive format on absolute file offsets,
//! including the exact error each operation must report.  Deliberately boring: no shared code
//! with nt-hive, no iterators, no caching; only the public error type is borrowed.

use crate::img::{BASE, NONE, SEG};
use nt_hive::{KeyValueDataType as T, NtHiveError as E};
use std::cmp::Ordering;
use std::sync::OnceLock;

/// A predicted error: the values that would be a true report, or "any error" if empty.
#[derive(Clone, Debug, PartialEq)]
pub struct Ex(pub Vec<E>);

impl From<E> for Ex {
    fn from(e: E) -> Ex {
        Ex(vec![e])
    }
}
impl Ex {
    pub fn any() -> Ex {
        Ex(vec![])
    }
    pub fn matches(&self, e: &E) -> bool {
        self.0.is_empty() || self.0.contains(e)
    }
}
pub type R<X> = Result<X, Ex>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct MKey {
    pub p: usize,
    pub end: usize,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct MVal {
    pub p: usize,
    pub end: usize,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct MName {
    pub comp: bool,
    pub s: usize,
    pub e: usize,
}
#[derive(Clone, Debug)]
pub struct MSubs {
    pub ents: Vec<R<MKey>>,
    pub root: bool,
    /// For every entry the number of leaf entries it stands for (1) - or 0 for a failed sub-list.
    pub exact_size: bool,
}
#[derive(Clone, Debug)]
pub enum MData {
    Small(usize, usize),
    Big(Vec<R<(usize, usize)>>),
}

pub enum Look {
    /// Exactly this answer.
    Exact(Option<R<MKey>>),
    /// One of these keys (equal names), or none if empty.
    OneOf(Vec<MKey>),
    /// The list is unsorted or damaged: only soundness is demanded.
    Sound(Vec<MKey>),
}

pub struct Model<'a> {
    pub b: &'a [u8],
}

pub fn upcase_table() -> &'static [u16; 65536] {
    static TBL: OnceLock<Box<[u16; 65536]>> = OnceLock::new();
    TBL.get_or_init(|| {
        let mut t = Box::new([0u16; 65536]);
        for i in 0..65536usize {
            t[i] = i as u16;
        }
        for l in include_str!("upcase13.txt").lines() {
            let mut w = l.split_whitespace();
            let a = u16::from_str_radix(w.next().unwrap(), 16).unwrap();
            let b = u16::from_str_radix(w.next().unwrap(), 16).unwrap();
            t[a as usize] = b;
        }
        t
    })
}

#[inline]
pub fn upcase(u: u16) -> u16 {
    upcase_table()[u as usize]
}

pub fn cmp_units(a: &[u16], b: &[u16]) -> Ordering {
    let n = a.len().min(b.len());
    for i in 0..n {
        let (x, y) = (upcase(a[i]), upcase(b[i]));
        if x != y {
            return x.cmp(&y);
        }
    }
    a.len().cmp(&b.len())
}

pub fn str_units(s: &str) -> Vec<u16> {
    s.encode_utf16().collect()
}

pub fn units_of(bytes: &[u8], comp: bool) -> Vec<u16> {
    if comp {
        bytes.iter().map(|b| *b as u16).collect()
    } else {
        let mut v = Vec::with_capacity(bytes.len() / 2);
        let mut i = 0;
        while i + 1 < bytes.len() {
            v.push(bytes[i] as u16 | (bytes[i + 1] as u16) << 8);
            i += 2;
        }
        v
    }
}

/// UTF-16 decoding written out by hand. Returns the text and whether a replacement was needed.
pub fn decode(units: &[u16]) -> (String, bool) {
    let mut s = String::new();
    let mut bad = false;
    let mut i = 0;
    while i < units.len() {
        let u = units[i] as u32;
        if (0xD800..0xDC00).contains(&u) {
            if i + 1 < units.len() && (0xDC00..0xE000).contains(&(units[i + 1] as u32)) {
                let c = 0x10000 + ((u - 0xD800) << 10) + (units[i + 1] as u32 - 0xDC00);
                s.push(char::from_u32(c).unwrap());
                i += 2;
                continue;
            }
            bad = true;
            s.push('\u{FFFD}');
        } else if (0xDC00..0xE000).contains(&u) {
            bad = true;
            s.push('\u{FFFD}');
        } else {
            s.push(char::from_u32(u).unwrap());
        }
        i += 1;
    }
    (s, bad)
}

/// REG_SZ: up to the first NUL or the end.
pub fn decode_sz(bytes: &[u8]) -> String {
    let mut u = units_of(bytes, false);
    if let Some(n) = u.iter().position(|x| *x == 0) {
        u.truncate(n);
    }
    decode(&u).0
}

/// REG_MULTI_SZ: strings, each ended by NUL or the end; stops at the first empty one.
pub fn decode_multi(bytes: &[u8]) -> Vec<String> {
    let u = units_of(bytes, false);
    let mut out = Vec::new();
    let mut i = 0;
    loop {
        let mut j = i;
        while j < u.len() && u[j] != 0 {
            j += 1;
        }
        if j == i {
            return out;
        }
        out.push(decode(&u[i..j]).0);
        if j >= u.len() {
            return out;
        }
        i = j + 1;
    }
}

pub fn data_type(code: u32) -> Option<T> {
    Some(match code {
        0 => T::RegNone,
        1 => T::RegSZ,
        2 => T::RegExpandSZ,
        3 => T::RegBinary,
        4 => T::RegDWord,
        5 => T::RegDWordBigEndian,
        6 => T::RegLink,
        7 => T::RegMultiSZ,
        8 => T::RegResourceList,
        9 => T::RegFullResourceDescriptor,
        10 => T::RegResourceRequirementsList,
        11 => T::RegQWord,
        _ => return None,
    })
}

impl<'a> Model<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Model { b }
    }
    pub fn u16(&self, p: usize) -> u16 {
        self.b[p] as u16 | (self.b[p + 1] as u16) << 8
    }
    pub fn u32(&self, p: usize) -> u32 {
        self.u16(p) as u32 | (self.u16(p + 2) as u32) << 16
    }
    pub fn minor(&self) -> u32 {
        self.u32(24)
    }

    /// The payload of the cell at `off`.
    pub fn cell(&self, off: u32) -> R<(usize, usize)> {
        let len = self.b.len();
        let a = off as usize + BASE;
        let left = len.saturating_sub(a);
        if left < 4 {
            return Err(E::InvalidHeaderSize {
                offset: a,
                expected: 4,
                actual: left,
            }
            .into());
        }
        let size = self.u32(a) as i32;
        if size >= 0 {
            return Err(E::UnallocatedCell { offset: a, size }.into());
        }
        let size = (-(size as i64)) as usize;
        let mut v = vec![];
        if size % 8 != 0 {
            v.push(E::InvalidSizeFieldAlignment {
                offset: a,
                size,
                expected_alignment: 8,
            });
        }
        if size > left {
            v.push(E::InvalidSizeField {
                offset: a,
                expected: size - 4,
                actual: left - 4,
            });
        }
        if !v.is_empty() {
            return Err(Ex(v));
        }
        Ok((a + 4, a + size))
    }

    /// Size and signature of a record; if both are wrong, either report is true.
    fn fixed_part(&self, p: usize, end: usize, size: usize, sig: &'static [u8; 2]) -> R<()> {
        let mut v = vec![];
        if end - p < size {
            v.push(E::InvalidHeaderSize {
                offset: p,
                expected: size,
                actual: end - p,
            });
        }
        if &self.b[p..p + 2] != sig {
            v.push(E::InvalidTwoByteSignature {
                offset: p,
                expected: sig,
                actual: [self.b[p], self.b[p + 1]],
            });
        }
        if v.is_empty() {
            Ok(())
        } else {
            Err(Ex(v))
        }
    }

    fn key_at(&self, off: u32) -> R<MKey> {
        let (p, end) = self.cell(off)?;
        self.fixed_part(p, end, 76, b"nk")?;
        Ok(MKey { p, end })
    }

    pub fn root(&self) -> R<MKey> {
        self.key_at(self.u32(36))
    }

    pub fn key_name(&self, k: MKey) -> R<MName> {
        let n = self.u16(k.p + 72) as usize;
        let avail = k.end - (k.p + 76);
        if n > avail {
            return Err(E::InvalidSizeField {
                offset: k.p + 72,
                expected: n,
                actual: avail,
            }
            .into());
        }
        Ok(MName {
            comp: self.u16(k.p + 2) & 0x20 != 0,
            s: k.p + 76,
            e: k.p + 76 + n,
        })
    }

    pub fn class_name(&self, k: MKey) -> Option<R<MName>> {
        let off = self.u32(k.p + 48);
        if off == NONE {
            return None;
        }
        let n = self.u16(k.p + 74) as usize;
        Some(self.cell(off).and_then(|(p, end)| {
            if n > end - p {
                Err(E::InvalidSizeField {
                    offset: k.p + 74,
                    expected: n,
                    actual: end - p,
                }
                .into())
            } else {
                Ok(MName {
                    comp: false,
                    s: p,
                    e: p + n,
                })
            }
        }))
    }

    /// One list cell: (is_ri, item offsets).
    fn list(&self, off: u32, ri_ok: bool) -> R<(bool, Vec<u32>)> {
        let (p, end) = self.cell(off)?;
        if end - p < 4 {
            return Err(E::InvalidHeaderSize {
                offset: p,
                expected: 4,
                actual: end - p,
            }
            .into());
        }
        let sig = [self.b[p], self.b[p + 1]];
        let item = match &sig {
            b"lf" | b"lh" => 8,
            b"li" => 4,
            b"ri" if ri_ok => 4,
            _ => {
                return Err(E::InvalidTwoByteSignature {
                    offset: p,
                    expected: if ri_ok { b"lf|lh|li|ri" } else { b"lf|lh|li" },
                    actual: sig,
                }
                .into())
            }
        };
        let n = self.u16(p + 2) as usize;
        if !ri_ok && n == 0 {
            return Err(E::InvalidSizeField {
                offset: p + 2,
                expected: 1,
                actual: 0,
            }
            .into());
        }
        let avail = end - p - 4;
        if n * item > avail {
            return Err(E::InvalidSizeField {
                offset: p + 2,
                expected: n * item,
                actual: avail,
            }
            .into());
        }
        Ok((
            &sig == b"ri",
            (0..n).map(|i| self.u32(p + 4 + i * item)).collect(),
        ))
    }

    pub fn subkeys(&self, k: MKey) -> Option<R<MSubs>> {
        let off = self.u32(k.p + 28);
        if off == NONE {
            return None;
        }
        let (root, items) = match self.list(off, true) {
            Ok(x) => x,
            Err(e) => return Some(Err(e)),
        };
        let mut ents = Vec::new();
        if root {
            for o in items {
                match self.list(o, false) {
                    Ok((_, it)) => ents.extend(it.into_iter().map(|o| self.key_at(o))),
                    Err(e) => ents.push(Err(e)),
                }
            }
        } else {
            ents.extend(items.into_iter().map(|o| self.key_at(o)));
        }
        Some(Ok(MSubs {
            ents,
            root,
            exact_size: !root,
        }))
    }

    pub fn name_units(&self, n: MName) -> Vec<u16> {
        units_of(&self.b[n.s..n.e], n.comp)
    }

    pub fn lookup(&self, k: MKey, name: &str) -> Look {
        let subs = match self.subkeys(k) {
            None => return Look::Exact(None),
            Some(Err(e)) => return Look::Exact(Some(Err(e))),
            Some(Ok(s)) => s,
        };
        self.lookup_in(&subs, name)
    }

    pub fn lookup_in(&self, subs: &MSubs, name: &str) -> Look {
        let nu = str_units(name);
        let mut units = Vec::new();
        let mut sound = true;
        let mut hits = Vec::new();
        for e in &subs.ents {
            match e {
                Ok(k) => match self.key_name(*k) {
                    Ok(n) => {
                        let u = self.name_units(n);
                        if cmp_units(&u, &nu) == Ordering::Equal {
                            hits.push(*k);
                        }
                        units.push(u);
                    }
                    Err(_) => sound = false,
                },
                Err(_) => sound = false,
            }
        }
        for w in units.windows(2) {
            if cmp_units(&w[0], &w[1]) == Ordering::Greater {
                sound = false;
            }
        }
        if sound {
            Look::OneOf(hits)
        } else {
            Look::Sound(hits)
        }
    }

    /// All errors an enumeration (list, entries, names) could deliver - for soundness of lookup errors.
    pub fn lookup_errors(&self, k: MKey) -> Vec<Ex> {
        let mut v = Vec::new();
        match self.subkeys(k) {
            None => {}
            Some(Err(e)) => v.push(e),
            Some(Ok(s)) => {
                for e in s.ents {
                    match e {
                        Err(e) => v.push(e),
                        Ok(k) => {
                            if let Err(e) = self.key_name(k) {
                                v.push(e)
                            }
                        }
                    }
                }
            }
        }
        v
    }

    pub fn val_at(&self, off: u32) -> R<MVal> {
        let (p, end) = self.cell(off)?;
        self.fixed_part(p, end, 20, b"vk")?;
        Ok(MVal { p, end })
    }

    pub fn values(&self, k: MKey) -> Option<R<Vec<R<MVal>>>> {
        let off = self.u32(k.p + 40);
        if off == NONE {
            return None;
        }
        let n = self.u32(k.p + 36) as usize;
        Some(self.cell(off).and_then(|(p, end)| {
            if n * 4 > end - p {
                return Err(E::InvalidSizeField {
                    offset: k.p + 36,
                    expected: n * 4,
                    actual: end - p,
                }
                .into());
            }
            Ok((0..n).map(|i| self.val_at(self.u32(p + 4 * i))).collect())
        }))
    }

    pub fn value(&self, k: MKey, name: &str) -> Option<R<MVal>> {
        let nu = str_units(name);
        let vs = match self.values(k)? {
            Ok(v) => v,
            Err(e) => return Some(Err(e)),
        };
        for v in vs {
            match v {
                Err(e) => return Some(Err(e)),
                Ok(v) => match self.val_name(v) {
                    Err(e) => return Some(Err(e)),
                    Ok(n) => {
                        if cmp_units(&self.name_units(n), &nu) == Ordering::Equal {
                            return Some(Ok(v));
                        }
                    }
                },
            }
        }
        None
    }

    pub fn val_name(&self, v: MVal) -> R<MName> {
        let n = self.u16(v.p + 2) as usize;
        let avail = v.end - (v.p + 20);
        if n > avail {
            return Err(E::InvalidSizeField {
                offset: v.p + 2,
                expected: n,
                actual: avail,
            }
            .into());
        }
        Ok(MName {
            comp: self.u16(v.p + 16) & 1 != 0,
            s: v.p + 20,
            e: v.p + 20 + n,
        })
    }

    pub fn data_size(&self, v: MVal) -> u32 {
        self.u32(v.p + 4) & 0x7FFF_FFFF
    }

    pub fn data_type(&self, v: MVal) -> R<T> {
        let c = self.u32(v.p + 12);
        data_type(c).ok_or_else(|| {
            E::UnsupportedKeyValueDataType {
                offset: v.p + 12,
                actual: c,
            }
            .into()
        })
    }

    pub fn data(&self, v: MVal) -> R<MData> {
        let raw = self.u32(v.p + 4);
        let n = (raw & 0x7FFF_FFFF) as usize;
        if raw & 0x8000_0000 != 0 {
            if n > 4 {
                return Err(E::InvalidSizeField {
                    offset: v.p + 4,
                    expected: n,
                    actual: 4,
                }
                .into());
            }
            return Ok(MData::Small(v.p + 8, v.p + 8 + n));
        }
        let (p, end) = self.cell(self.u32(v.p + 8))?;
        if n <= SEG || self.minor() < 4 {
            if n > end - p {
                return Err(E::InvalidDataSize {
                    offset: p,
                    expected: n,
                    actual: end - p,
                }
                .into());
            }
            return Ok(MData::Small(p, p + n));
        }
        self.fixed_part(p, end, 8, b"db")?;
        let cnt = self.u16(p + 2) as usize;
        let mut bad = vec![];
        if n > cnt * SEG {
            bad.push(E::InvalidSizeField {
                offset: v.p + 4,
                expected: n,
                actual: cnt * SEG,
            });
        }
        let (lp, lend) = match self.cell(self.u32(p + 4)) {
            Ok(x) => x,
            Err(e) => {
                bad.extend(e.0);
                return Err(Ex(bad));
            }
        };
        if cnt * 4 > lend - lp {
            bad.push(E::InvalidSizeField {
                offset: p + 2,
                expected: cnt * 4,
                actual: lend - lp,
            });
        }
        if !bad.is_empty() {
            return Err(Ex(bad));
        }
        let mut segs = Vec::new();
        let mut left = n;
        let mut i = 0;
        while left > 0 {
            let want = left.min(SEG);
            segs.push(self.cell(self.u32(lp + 4 * i)).and_then(|(s, e)| {
                if want > e - s {
                    Err(E::InvalidDataSize {
                        offset: s,
                        expected: want,
                        actual: e - s,
                    }
                    .into())
                } else {
                    Ok((s, s + want))
                }
            }));
            left -= want;
            i += 1;
        }
        Ok(MData::Big(segs))
    }

    /// Full data bytes, or the error into_vec must report.
    pub fn data_vec(&self, v: MVal) -> R<Vec<u8>> {
        match self.data(v)? {
            MData::Small(s, e) => Ok(self.b[s..e].to_vec()),
            MData::Big(segs) => {
                let mut out = Vec::new();
                for s in segs {
                    let (s, e) = s?;
                    out.extend_from_slice(&self.b[s..e]);
                }
                Ok(out)
            }
        }
    }

    fn bad_type(&self, expected: &'static [T], actual: T) -> Ex {
        E::InvalidKeyValueDataType { expected, actual }.into()
    }

    /// Ok(text) | Err; the bool says that an error is equally acceptable.
    pub fn string(&self, v: MVal) -> (R<String>, bool) {
        let ty = self.data_type(v);
        let data = self.data(v);
        let type_err = match ty {
            Err(e) => Some(e),
            Ok(T::RegSZ) | Ok(T::RegExpandSZ) => None,
            Ok(t) => Some(self.bad_type(&[T::RegSZ, T::RegExpandSZ], t)),
        };
        match (type_err, data) {
            (Some(mut a), Err(b)) => {
                a.0.extend(b.0);
                (Err(a), false)
            }
            (Some(e), Ok(_)) => (Err(e), false),
            (None, Err(e)) => (Err(e), false),
            (None, Ok(MData::Small(s, e))) => (Ok(decode_sz(&self.b[s..e])), false),
            (None, Ok(MData::Big(segs))) => {
                let mut buf = Vec::new();
                let mut err = None;
                for s in &segs {
                    match s {
                        Ok((s, e)) => buf.extend_from_slice(&self.b[*s..*e]),
                        Err(e) => {
                            err = Some(e.clone());
                            break;
                        }
                    }
                }
                let Some(err) = err else {
                    return (Ok(decode_sz(&buf)), false);
                };
                let u = units_of(&buf, false);
                if u.contains(&0) {
                    (Ok(decode_sz(&buf)), true)
                } else {
                    (Err(err), false)
                }
            }
        }
    }

    /// (strings that must come first, then error?, constructor may fail instead)
    pub fn multi(&self, v: MVal) -> R<(Vec<String>, Option<Ex>, bool)> {
        let ty = self.data_type(v);
        let data = self.data(v);
        let type_err = match ty {
            Err(e) => Some(e),
            Ok(T::RegMultiSZ) => None,
            Ok(t) => Some(self.bad_type(&[T::RegMultiSZ], t)),
        };
        match (type_err, data) {
            (Some(mut a), Err(b)) => {
                a.0.extend(b.0);
                Err(a)
            }
            (Some(e), Ok(_)) => Err(e),
            (None, Err(e)) => Err(e),
            (None, Ok(MData::Small(s, e))) => Ok((decode_multi(&self.b[s..e]), None, false)),
            (None, Ok(MData::Big(segs))) => {
                let mut buf = Vec::new();
                let mut err = None;
                for s in &segs {
                    match s {
                        Ok((s, e)) => buf.extend_from_slice(&self.b[*s..*e]),
                        Err(e) => {
                            err = Some(e.clone());
                            break;
                        }
                    }
                }
                let Some(err) = err else {
                    return Ok((decode_multi(&buf), None, false));
                };
                // Strings completed by a NUL before the damage; ended early by an empty string?
                let u = units_of(&buf, false);
                let mut out = Vec::new();
                let mut i = 0;
                loop {
                    let mut j = i;
                    while j < u.len() && u[j] != 0 {
                        j += 1;
                    }
                    if j >= u.len() {
                        return Ok((out, Some(err), true));
                    }
                    if j == i {
                        return Ok((out, None, true));
                    }
                    out.push(decode(&u[i..j]).0);
                    i = j + 1;
                }
            }
        }
    }

    pub fn dword(&self, v: MVal) -> R<u32> {
        let d = self.num(v, 4, |t| matches!(t, T::RegDWord | T::RegDWordBigEndian), &[
            T::RegDWord,
            T::RegDWordBigEndian,
        ])?;
        let b = &self.b[d..d + 4];
        Ok(if self.data_type(v)? == T::RegDWord {
            b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24
        } else {
            b[3] as u32 | (b[2] as u32) << 8 | (b[1] as u32) << 16 | (b[0] as u32) << 24
        })
    }

    pub fn qword(&self, v: MVal) -> R<u64> {
        let d = self.num(v, 8, |t| matches!(t, T::RegQWord), &[T::RegQWord])?;
        let mut x = 0u64;
        for i in (0..8).rev() {
            x = x << 8 | self.b[d + i] as u64;
        }
        Ok(x)
    }

    fn num(
        &self,
        v: MVal,
        want: usize,
        ok: impl Fn(T) -> bool,
        exp: &'static [T],
    ) -> R<usize> {
        let ty = self.data_type(v);
        let data = self.data(v);
        let type_err = match ty {
            Err(e) => Some(e),
            Ok(t) if ok(t) => None,
            Ok(t) => Some(self.bad_type(exp, t)),
        };
        let n = self.data_size(v) as usize;
        let size_err: Option<Ex> = match data {
            Err(e) => Some(e),
            Ok(MData::Small(s, e)) if e - s == want => {
                return match type_err {
                    None => Ok(s),
                    Some(e) => Err(e),
                };
            }
            Ok(MData::Small(s, _)) => Some(
                E::InvalidDataSize {
                    offset: s,
                    expected: want,
                    actual: n,
                }
                .into(),
            ),
            Ok(MData::Big(_)) => {
                let a = self.u32(v.p + 8) as usize + BASE;
                let e = |offset| E::InvalidDataSize {
                    offset,
                    expected: want,
                    actual: n,
                };
                Some(Ex(vec![e(a), e(a + 4)]))
            }
        };
        match (type_err, size_err) {
            (Some(mut a), Some(b)) => {
                a.0.extend(b.0);
                Err(a)
            }
            (Some(e), None) | (None, Some(e)) => Err(e),
            (None, None) => unreachable!(),
        }
    }

    /// All keys reachable from the root through readable subkey lists, breadth first.
    /// Returns (keys, whether any damage was met on the way, number of root-to-key paths (capped),
    /// whether a cycle exists).
    pub fn reachable(&self, cap: u64) -> (Vec<MKey>, bool, u64, bool) {
        let mut keys = Vec::new();
        let mut damaged = false;
        let root = match self.root() {
            Ok(r) => r,
            Err(_) => return (keys, true, 0, false),
        };
        // Depth-first with explicit stack, colours for cycle detection, path counting by memo.
        use std::collections::HashMap;
        let mut color: HashMap<usize, (u8, u64)> = HashMap::new();
        struct Fr {
            k: MKey,
            kids: Vec<MKey>,
            i: usize,
            sum: u64,
        }
        let mut cyc = false;
        let kids = |m: &Self, k: MKey, damaged: &mut bool| -> Vec<MKey> {
            match m.subkeys(k) {
                None => vec![],
                Some(Err(_)) => {
                    *damaged = true;
                    vec![]
                }
                Some(Ok(s)) => {
                    let mut v = Vec::new();
                    for e in s.ents {
                        match e {
                            Ok(k) => v.push(k),
                            Err(_) => *damaged = true,
                        }
                    }
                    v
                }
            }
        };
        let mut st = vec![Fr {
            k: root,
            kids: kids(self, root, &mut damaged),
            i: 0,
            sum: 1,
        }];
        color.insert(root.p, (1, 0));
        keys.push(root);
        let mut total = 1;
        while let Some(f) = st.last_mut() {
            if f.i < f.kids.len() {
                let k = f.kids[f.i];
                f.i += 1;
                match color.get(&k.p) {
                    None => {
                        color.insert(k.p, (1, 0));
                        keys.push(k);
                        let kk = kids(self, k, &mut damaged);
                        st.push(Fr {
                            k,
                            kids: kk,
                            i: 0,
                            sum: 1,
                        });
                    }
                    Some((1, _)) => cyc = true,
                    Some((_, n)) => f.sum = f.sum.saturating_add(*n).min(cap),
                }
            } else {
                let f = st.pop().unwrap();
                color.insert(f.k.p, (2, f.sum));
                total = f.sum;
                if let Some(g) = st.last_mut() {
                    g.sum = g.sum.saturating_add(total).min(cap);
                }
            }
        }
        (keys, damaged, total, cyc)
    }

    /// Header validation: None = accepted.
    pub fn header_error(&self) -> Option<E> {
        // Checked in an arbitrary order; use `header_errors` for the set.
        self.header_errors().into_iter().next()
    }

    pub fn header_errors(&self) -> Vec<E> {
        let mut v = Vec::new();
        let b = self.b;
        if b.len() < 4096 {
            return vec![E::InvalidHeaderSize {
                offset: 0,
                expected: 4096,
                actual: b.len(),
            }];
        }
        if &b[0..4] != b"regf" {
            v.push(E::InvalidFourByteSignature {
                offset: 0,
                expected: b"regf",
                actual: [b[0], b[1], b[2], b[3]],
            });
        }
        if self.u32(4) != self.u32(8) {
            v.push(E::SequenceNumberMismatch {
                primary: self.u32(4),
                secondary: self.u32(8),
            });
        }
        if self.u32(20) != 1 || self.u32(24) < 3 {
            v.push(E::UnsupportedVersion {
                major: self.u32(20),
                minor: self.u32(24),
            });
        }
        if self.u32(28) != 0 {
            v.push(E::UnsupportedFileType {
                expected: 0,
                actual: self.u32(28),
            });
        }
        if self.u32(32) != 1 {
            v.push(E::UnsupportedFileFormat {
                expected: 1,
                actual: self.u32(32),
            });
        }
        let ds = self.u32(40) as usize;
        if ds % 4096 != 0 {
            v.push(E::InvalidSizeFieldAlignment {
                offset: 40,
                size: ds,
                expected_alignment: 4096,
            });
        }
        if ds > b.len() - 4096 {
            v.push(E::InvalidSizeField {
                offset: 40,
                expected: ds,
                actual: b.len() - 4096,
            });
        }
        if self.u32(44) != 1 {
            v.push(E::UnsupportedClusteringFactor {
                expected: 1,
                actual: self.u32(44),
            });
        }
        let want = crate::img::stored_sum(crate::img::xor_sum(b));
        if self.u32(508) != want {
            v.push(E::InvalidChecksum {
                expected: want,
                actual: self.u32(508),
            });
        }
        v
    }
}
