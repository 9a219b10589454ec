//! Lockstep walker: visits every handle the model can reach and compares every public operation
//! of the implementation against the model.

use crate::engine::{Ctx, Tags};
use crate::model::*;
use nt_hive::{Hive, KeyNode, KeyValue, KeyValueData, NtHiveError as E, NtHiveNameString, Result as NR};
use std::collections::HashSet;
use std::collections::VecDeque;

pub type Kn<'h> = KeyNode<'h, &'h [u8]>;
pub type Kv<'h> = KeyValue<'h, &'h [u8]>;

#[derive(Clone)]
pub struct Cfg {
    pub validate: bool,
    pub lookups: bool,
    pub extra_probes: Vec<String>,
    pub iters: bool,
    pub typed: bool,
    pub names: bool,
    pub clear: bool,
    pub paths: Vec<String>,
    pub exact: bool,
    /// handle identity and repeatability instead of the comparison with the model
    pub ident: bool,
    pub max_keys: usize,
}

impl Cfg {
    pub fn full() -> Cfg {
        Cfg {
            validate: false,
            lookups: true,
            extra_probes: vec!["".into(), "a".into(), "zz".into(), "\u{e4}\u{10400}".into()],
            iters: true,
            typed: true,
            names: true,
            clear: true,
            paths: vec!["".into(), "\\".into(), "a\\b".into(), "a\\\\b\\c\\".into()],
            exact: false,
            ident: false,
            max_keys: 64,
        }
    }
    pub fn structure() -> Cfg {
        Cfg {
            extra_probes: vec!["a".into()],
            iters: false,
            clear: false,
            paths: vec![],
            ..Cfg::full()
        }
    }
}

pub fn ek(e: &E) -> u64 {
    match e {
        E::InvalidChecksum { .. } => 2,
        E::InvalidDataSize { .. } => 3,
        E::InvalidFourByteSignature { .. } => 4,
        E::InvalidHeaderSize { .. } => 5,
        E::InvalidKeyValueDataType { .. } => 6,
        E::InvalidSizeField { .. } => 7,
        E::InvalidSizeFieldAlignment { .. } => 8,
        E::InvalidTwoByteSignature { .. } => 9,
        E::SequenceNumberMismatch { .. } => 10,
        E::UnallocatedCell { .. } => 11,
        E::UnsupportedClusteringFactor { .. } => 12,
        E::UnsupportedFileFormat { .. } => 13,
        E::UnsupportedFileType { .. } => 14,
        E::UnsupportedKeyValueDataType { .. } => 15,
        E::UnsupportedVersion { .. } => 16,
    }
}

fn h(op: &str, k: u64) -> u64 {
    let mut x = 0xcbf29ce484222325u64;
    for b in op.bytes() {
        x = (x ^ b as u64).wrapping_mul(0x100000001b3);
    }
    (x ^ k).wrapping_mul(0x100000001b3)
}

/// The text of an error states its numbers, the required ones before the "but".
pub fn message(c: &mut Ctx, e: &E) {
    let Some(t) = c.call(&["C17"], "formatting an error", 0, &[], || format!("{e}")) else { return };
    let nums = |t: &str| -> Vec<u64> {
        t.split(|c: char| !c.is_ascii_alphanumeric())
            .filter_map(|w| match w.strip_prefix("0x").or(w.strip_prefix("0X")) {
                Some(h) => u64::from_str_radix(h, 16).ok(),
                None => w.parse().ok(),
            })
            .collect()
    };
    let (a, b) = t.split_once(" but ").unwrap_or((&t, &t));
    let (a, b, all) = (nums(a), nums(b), nums(&t));
    let z = |x: usize| x as u64;
    let by = |x: &[u8]| x.iter().map(|b| *b as u64).collect::<Vec<u64>>();
    // (anywhere, before, after)
    #[allow(unreachable_patterns)]
    let (w, x, y): (Vec<u64>, Vec<u64>, Vec<u64>) = match e {
        E::InvalidChecksum { expected, actual }
        | E::UnsupportedClusteringFactor { expected, actual }
        | E::UnsupportedFileFormat { expected, actual }
        | E::UnsupportedFileType { expected, actual } => (vec![], vec![*expected as u64], vec![*actual as u64]),
        E::InvalidDataSize { offset, expected, actual }
        | E::InvalidHeaderSize { offset, expected, actual }
        | E::InvalidSizeField { offset, expected, actual } => (vec![z(*offset)], vec![z(*expected)], vec![z(*actual)]),
        E::InvalidSizeFieldAlignment { offset, size, expected_alignment } => (vec![z(*offset), z(*size), z(*expected_alignment)], vec![], vec![]),
        E::InvalidFourByteSignature { offset, expected, actual } => {
            let lit = t.contains(&String::from_utf8_lossy(actual).to_string());
            (vec![z(*offset)], if lit { vec![] } else { by(expected) }, if lit { vec![] } else { by(actual) })
        }
        E::InvalidTwoByteSignature { offset, expected, actual } => {
            let lit = t.contains(&String::from_utf8_lossy(actual).to_string());
            (vec![z(*offset)], if lit { vec![] } else { by(expected) }, if lit { vec![] } else { by(actual) })
        }
        E::SequenceNumberMismatch { primary, secondary } => (vec![*primary as u64, *secondary as u64], vec![], vec![]),
        E::UnallocatedCell { offset, size } => (vec![z(*offset), *size as u64], vec![], vec![]),
        E::UnsupportedKeyValueDataType { offset, actual } => (vec![z(*offset), *actual as u64], vec![], vec![]),
        E::UnsupportedVersion { major, minor } => {
            let m = all.iter().position(|n| *n == *major as u64).map_or(0, |i| i + 1);
            if !all[m..].contains(&(*minor as u64)) {
                c.report(&["C17"], format!("the message {t:?} does not state the version of {e:?}"), None);
            }
            (vec![*major as u64], vec![], vec![])
        }
        E::InvalidKeyValueDataType { expected, actual } => {
            let (x, y) = t.split_once(" but ").unwrap_or((&t, &t));
            if !expected.iter().all(|d| x.contains(&format!("{d:?}"))) || !y.contains(&format!("{actual:?}")) {
                c.report(&["C17"], format!("the message {t:?} does not name the types of {e:?}"), None);
            }
            return;
        }
        _ => return,
    };
    if !w.iter().all(|n| all.contains(n)) || !x.iter().all(|n| a.contains(n)) || !y.iter().all(|n| b.contains(n)) {
        c.report(&["C17"], format!("the message {t:?} does not state the numbers of {e:?}"), None);
    }
}

/// Compares the outcome kinds (and, in exact mode, the error values). True if both are Ok.
pub fn agree<T, U>(
    c: &mut Ctx,
    tags: Tags,
    op: &str,
    at: usize,
    img: &[u8],
    got: &NR<T>,
    want: &R<U>,
) -> bool {
    match (got, want) {
        (Ok(_), Ok(_)) => {
            c.outcome(h(op, 1));
            true
        }
        (Err(g), Err(w)) => {
            c.outcome(h(op, ek(g)));
            if c.is("C01") {
                let _ = c.call(&["C01"], "formatting an error", at, img, || {
                    (format!("{g}").len(), format!("{g:?}").len())
                });
            }
            if c.exact && !w.matches(g) {
                c.report(
                    &["C17"],
                    format!("{op} at {at:#x}: reported {g:?}, expected {w:?}"),
                    Some(img),
                );
            }
            if c.exact && c.is("C17") {
                message(c, g);
            }
            false
        }
        (Ok(_), Err(w)) => {
            let m = format!("{op} at {at:#x}: succeeded, but must fail with {w:?}");
            report_c03(c, tags, m, img);
            false
        }
        (Err(g), Ok(_)) => {
            let m = format!("{op} at {at:#x}: failed with {g:?}, but must succeed");
            c.report(tags, m, Some(img));
            false
        }
    }
}

fn report_c03(c: &mut Ctx, tags: Tags, m: String, img: &[u8]) {
    if c.is("C03") {
        c.report(&["C03"], m, Some(img));
    } else {
        c.report(tags, m, Some(img));
    }
}

/// As `agree` for `Option<Result>`.
pub fn agree_opt<T, U>(
    c: &mut Ctx,
    tags: Tags,
    op: &str,
    at: usize,
    img: &[u8],
    got: &Option<NR<T>>,
    want: &Option<R<U>>,
) -> bool {
    match (got, want) {
        (None, None) => {
            c.outcome(h(op, 0));
            false
        }
        (Some(g), Some(w)) => agree(c, tags, op, at, img, g, w),
        (None, Some(w)) => {
            let m = format!(
                "{op} at {at:#x}: reported nothing, but must {}",
                match w {
                    Ok(_) => "succeed".to_string(),
                    Err(e) => format!("fail with {e:?}"),
                }
            );
            if w.is_err() {
                report_c03(c, tags, m, img);
            } else {
                c.report(tags, m, Some(img));
            }
            false
        }
        (Some(g), None) => {
            let m = format!(
                "{op} at {at:#x}: gave {:?}, but there is nothing",
                g.as_ref().map(|_| ())
            );
            c.report(tags, m, Some(img));
            false
        }
    }
}

pub fn nbytes<'a>(n: &NtHiveNameString<'a>) -> (bool, &'a [u8]) {
    match n {
        NtHiveNameString::Latin1(b) => (true, b),
        NtHiveNameString::Utf16LE(b) => (false, b),
    }
}

/// File offset of the key record behind a handle, if its name is readable and not empty.
pub fn key_id(img: &[u8], k: &Kn) -> Option<usize> {
    let n = k.name().ok()?;
    let (_, b) = nbytes(&n);
    if b.is_empty() {
        return None;
    }
    Some((b.as_ptr() as usize).wrapping_sub(img.as_ptr() as usize).wrapping_sub(76))
}
pub fn val_id(img: &[u8], k: &Kv) -> Option<usize> {
    let n = k.name().ok()?;
    let (_, b) = nbytes(&n);
    if b.is_empty() {
        return None;
    }
    Some((b.as_ptr() as usize).wrapping_sub(img.as_ptr() as usize).wrapping_sub(20))
}

pub fn check_key_id(c: &mut Ctx, tags: Tags, op: &str, img: &[u8], id: Option<usize>, m: MKey) {
    if let Some(i) = id {
        if i != m.p {
            c.report(
                tags,
                format!("{op}: delivered the key record at {i:#x} instead of {:#x}", m.p),
                Some(img),
            );
        }
    }
}

pub const T_ROOT: Tags = &["C03", "C04", "C18"];
pub const T_NAME: Tags = &["C14", "C03"];
pub const T_CLASS: Tags = &["C14", "C03"];
pub const T_SUBS: Tags = &["C04", "C03"];
pub const T_SUBK: Tags = &["C05", "C03"];
pub const T_PATH: Tags = &["C07", "C03"];
pub const T_VALS: Tags = &["C08", "C03"];
pub const T_VAL: Tags = &["C08", "C03"];
pub const T_VNAME: Tags = &["C14", "C08", "C03"];
pub const T_DATA: Tags = &["C09", "C03"];
pub const T_TYPE: Tags = &["C10"];
pub const T_NUM: Tags = &["C10", "C03"];
pub const T_STR: Tags = &["C11", "C10", "C03"];
pub const T_MSTR: Tags = &["C12", "C10", "C03"];
pub const T_ITER: Tags = &["C15"];
pub const T_CLEAR: Tags = &["C16"];

pub fn name_tags_check(
    c: &mut Ctx,
    tags: Tags,
    op: &str,
    at: usize,
    img: &[u8],
    got: &NtHiveNameString,
    want: &MName,
) {
    let (comp, b) = nbytes(got);
    if comp != want.comp || b != &img[want.s..want.e] {
        c.report(
            tags,
            format!(
                "{op} at {at:#x}: got {} bytes comp={comp} {:02x?}, stored {} bytes comp={} {:02x?}",
                b.len(),
                &b[..b.len().min(16)],
                want.e - want.s,
                want.comp,
                &img[want.s..want.e.min(want.s + 16)]
            ),
            Some(img),
        );
        return;
    }
    if b.len() > 0 && b.as_ptr() as usize != img.as_ptr() as usize + want.s {
        c.report(
            &["C03"],
            format!("{op} at {at:#x}: name bytes come from outside the record"),
            Some(img),
        );
    }
}

pub fn open<'a>(c: &mut Ctx, img: &'a [u8]) -> Option<Hive<&'a [u8]>> {
    let r = c.call(&["C02"], "Hive::without_validation", 0, img, || {
        Hive::without_validation(img)
    })?;
    match r {
        Ok(h) => {
            if img.len() < 4096 {
                c.report(&["C02"], format!("opened a {} byte input", img.len()), Some(img));
                return None;
            }
            Some(h)
        }
        Err(e) => {
            if img.len() >= 4096 {
                c.report(&["C02"], format!("opening failed: {e:?}"), Some(img));
            } else if e
                != (E::InvalidHeaderSize {
                    offset: 0,
                    expected: 4096,
                    actual: img.len(),
                })
            {
                c.report(&["C17"], format!("short input: {e:?}"), Some(img));
            }
            None
        }
    }
}

pub fn walk(c: &mut Ctx, img: &[u8], cfg: &Cfg) {
    if cfg.ident {
        return crate::handles::both(c, img, cfg.max_keys);
    }
    let old = c.exact;
    c.exact = cfg.exact;
    walk_inner(c, img, cfg);
    c.exact = old;
}

fn walk_inner(c: &mut Ctx, img: &[u8], cfg: &Cfg) {
    let m = Model::new(img);
    let Some(hive) = open(c, img) else { return };
    // SAFETY of lifetimes: hive outlives everything below.
    let hive = &hive;
    if cfg.validate {
        validate(c, img, hive);
    }
    let Some(got) = c.call(T_ROOT, "Hive::root_key_node", 36, img, || hive.root_key_node()) else {
        return;
    };
    let want = m.root();
    if !agree(c, T_ROOT, "root_key_node", 36, img, &got, &want) {
        return;
    }
    let (root, mroot) = (got.ok().unwrap(), want.ok().unwrap());
    let id = c.call(T_NAME, "name", mroot.p, img, || key_id(img, &root));
    check_key_id(c, T_ROOT, "root_key_node", img, id.flatten(), mroot);
    let mut q: VecDeque<(Kn, MKey)> = VecDeque::new();
    let mut seen: HashSet<usize> = HashSet::new();
    let mut vseen: HashSet<usize> = HashSet::new();
    seen.insert(mroot.p);
    q.push_back((root, mroot));
    let mut visited = 0;
    while let Some((k, mk)) = q.pop_front() {
        visited += 1;
        if visited > cfg.max_keys {
            break;
        }
        c.states += 1;
        key(c, img, &m, cfg, &k, mk, &mut q, &mut seen, &mut vseen);
    }
    if cfg.clear {
        crate::walk::clear(c, img);
    }
}

pub fn validate(c: &mut Ctx, img: &[u8], hive: &Hive<&[u8]>) {
    let m = Model::new(img);
    let Some(r) = c.call(&["C02"], "Hive::validate", 0, img, || hive.validate()) else {
        return;
    };
    header_verdict(c, img, "validate", &m, &r);
    let Some(r) = c.call(&["C02"], "Hive::new", 0, img, || Hive::new(img).map(|_| ())) else {
        return;
    };
    header_verdict(c, img, "Hive::new", &m, &r);
    let (a, b) = (hive.major_version(), hive.minor_version());
    c.transitions += 2;
    if a != m.u32(20) || b != m.u32(24) {
        c.report(&["C02"], format!("version {a}.{b}"), Some(img));
    }
}

pub fn header_verdict(c: &mut Ctx, img: &[u8], op: &str, m: &Model, r: &NR<()>) {
    let errs = m.header_errors();
    match r {
        Ok(()) => {
            c.outcome(h(op, 1));
            if !errs.is_empty() {
                c.report(&["C02"], format!("{op} accepted a header with {errs:?}"), Some(img));
            }
        }
        Err(e) => {
            c.outcome(h(op, ek(e)));
            if errs.is_empty() {
                c.report(&["C02"], format!("{op} rejected a valid header: {e:?}"), Some(img));
            } else if !errs.contains(e) {
                c.report(
                    &["C17"],
                    format!("{op} reported {e:?}, the damage is {errs:?}"),
                    Some(img),
                );
            } else if c.is("C17") {
                message(c, e);
            }
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn key<'h>(
    c: &mut Ctx,
    img: &[u8],
    m: &Model,
    cfg: &Cfg,
    k: &Kn<'h>,
    mk: MKey,
    q: &mut VecDeque<(Kn<'h>, MKey)>,
    seen: &mut HashSet<usize>,
    vseen: &mut HashSet<usize>,
) {
    let at = mk.p;
    // --- name, class name
    if let Some(got) = c.call(T_NAME, "KeyNode::name", at, img, || k.name()) {
        let want = m.key_name(mk);
        if agree(c, T_NAME, "KeyNode::name", at, img, &got, &want) {
            let (g, w) = (got.unwrap(), want.unwrap());
            name_tags_check(c, T_NAME, "KeyNode::name", at, img, &g, &w);
            if cfg.names {
                name_ops(c, img, &g, at);
            }
        }
    }
    if let Some(got) = c.call(T_CLASS, "KeyNode::class_name", at, img, || k.class_name()) {
        let want = m.class_name(mk);
        if agree_opt(c, T_CLASS, "KeyNode::class_name", at, img, &got, &want) {
            let (g, w) = (got.unwrap().unwrap(), want.unwrap().unwrap());
            name_tags_check(c, T_CLASS, "KeyNode::class_name", at, img, &g, &w);
            if cfg.names {
                name_ops(c, img, &g, at);
            }
        }
    }
    // --- subkeys
    let want = m.subkeys(mk);
    if let Some(got) = c.call(T_SUBS, "KeyNode::subkeys", at, img, || k.subkeys()) {
        if agree_opt(c, T_SUBS, "KeyNode::subkeys", at, img, &got, &want) {
            let subs = want.as_ref().unwrap().as_ref().ok().unwrap();
            let it0 = got.unwrap().ok().unwrap();
            let mut it = it0.clone();
            let mut good = true;
            for (i, w) in subs.ents.iter().enumerate() {
                let r = c.call(T_SUBS, "SubKeyNodes::next", at, img, || {
                    let r = it.next();
                    let id = match &r {
                        Some(Ok(k)) => key_id(img, k),
                        _ => None,
                    };
                    (r, id)
                });
                let Some((g, id)) = r else {
                    good = false;
                    break;
                };
                match g {
                    None => {
                        c.report(
                            T_SUBS,
                            format!(
                                "subkeys at {at:#x}: ended after {i} of {} entries",
                                subs.ents.len()
                            ),
                            Some(img),
                        );
                        good = false;
                        break;
                    }
                    Some(g) => {
                        if agree(c, T_SUBS, "SubKeyNodes::next", at, img, &g, w) {
                            let (g, w) = (g.ok().unwrap(), *w.as_ref().ok().unwrap());
                            check_key_id(c, T_SUBS, "SubKeyNodes::next", img, id, w);
                            if seen.insert(w.p) {
                                q.push_back((g, w));
                            }
                        }
                    }
                }
            }
            if good {
                if let Some(Some(_)) =
                    c.call(T_SUBS, "SubKeyNodes::next", at, img, || it.next().map(|_| ()))
                {
                    c.report(
                        T_SUBS,
                        format!(
                            "subkeys at {at:#x}: more than the {} stored entries",
                            subs.ents.len()
                        ),
                        Some(img),
                    );
                }
            }
            if cfg.iters && good {
                let want: Vec<Option<usize>> = subs
                    .ents
                    .iter()
                    .map(|e| e.as_ref().ok().map(|k| k.p))
                    .collect();
                // Only entries whose record has a readable non-empty name can be identified.
                let names: Vec<bool> = subs
                    .ents
                    .iter()
                    .map(|e| match e {
                        Ok(k) => m.key_name(*k).map_or(false, |n| n.e > n.s),
                        Err(_) => false,
                    })
                    .collect();
                iter_ops(c, "SubKeyNodes", at, img, &it0, &want, &names, !subs.root, |r| match r {
                    Ok(k) => (true, key_id(img, k)),
                    Err(_) => (false, None),
                });
            }
        }
    }
    // --- lookups
    if cfg.lookups {
        lookups(c, img, m, k, mk, cfg);
    }
    for p in &cfg.paths {
        path(c, img, m, k, mk, p);
    }
    // --- values
    let want = m.values(mk);
    if let Some(got) = c.call(T_VALS, "KeyNode::values", at, img, || k.values()) {
        if agree_opt(c, T_VALS, "KeyNode::values", at, img, &got, &want) {
            let ents = want.as_ref().unwrap().as_ref().ok().unwrap();
            let it0 = got.unwrap().ok().unwrap();
            let mut it = it0.clone();
            let mut good = true;
            for (i, w) in ents.iter().enumerate() {
                let r = c.call(T_VALS, "KeyValues::next", at, img, || {
                    let r = it.next();
                    let id = match &r {
                        Some(Ok(k)) => val_id(img, k),
                        _ => None,
                    };
                    (r, id)
                });
                let Some((g, id)) = r else {
                    good = false;
                    break;
                };
                match g {
                    None => {
                        c.report(
                            T_VALS,
                            format!("values at {at:#x}: ended after {i} of {} entries", ents.len()),
                            Some(img),
                        );
                        good = false;
                        break;
                    }
                    Some(g) => {
                        if agree(c, T_VALS, "KeyValues::next", at, img, &g, w) {
                            let (g, w) = (g.ok().unwrap(), *w.as_ref().ok().unwrap());
                            if let Some(i) = id {
                                if i != w.p {
                                    c.report(
                                        T_VALS,
                                        format!(
                                            "KeyValues::next at {at:#x}: value record {i:#x} instead of {:#x}",
                                            w.p
                                        ),
                                        Some(img),
                                    );
                                    continue;
                                }
                            }
                            if vseen.insert(w.p) && vseen.len() <= 64 {
                                c.states += 1;
                                value(c, img, m, cfg, &g, w);
                            }
                        }
                    }
                }
            }
            if good {
                if let Some(Some(_)) =
                    c.call(T_VALS, "KeyValues::next", at, img, || it.next().map(|_| ()))
                {
                    c.report(
                        T_VALS,
                        format!("values at {at:#x}: more than the {} stored entries", ents.len()),
                        Some(img),
                    );
                }
            }
            if cfg.iters && good {
                let want: Vec<Option<usize>> =
                    ents.iter().map(|e| e.as_ref().ok().map(|k| k.p)).collect();
                let names: Vec<bool> = ents
                    .iter()
                    .map(|e| match e {
                        Ok(k) => m.val_name(*k).map_or(false, |n| n.e > n.s),
                        Err(_) => false,
                    })
                    .collect();
                iter_ops(c, "KeyValues", at, img, &it0, &want, &names, true, |r| match r {
                    Ok(k) => (true, val_id(img, k)),
                    Err(_) => (false, None),
                });
            }
        }
    }
}

/// Spot checks of the iterator operations against the known item list.
#[allow(clippy::too_many_arguments)]
pub fn iter_ops<I, T>(
    c: &mut Ctx,
    op: &str,
    at: usize,
    img: &[u8],
    it: &I,
    want: &[Option<usize>],
    ident: &[bool],
    exact_size: bool,
    id: impl Fn(&NR<T>) -> (bool, Option<usize>) + Copy,
) where
    I: Iterator<Item = NR<T>> + Clone,
{
    let n = want.len();
    if let Some((lo, hi)) = c.call(T_ITER, op, at, img, || it.size_hint()) {
        if lo > n || hi.map_or(false, |h| h < n) || (exact_size && (lo != n || hi != Some(n))) {
            c.report(
                T_ITER,
                format!("{op} at {at:#x}: size_hint {lo},{hi:?} but {n} items"),
                Some(img),
            );
        }
    }
    if let Some(k) = c.call(T_ITER, op, at, img, || it.clone().count()) {
        if k != n {
            c.report(T_ITER, format!("{op} at {at:#x}: count {k} but {n} items"), Some(img));
        }
    }
    let check = |c: &mut Ctx, what: &str, got: Option<(bool, Option<usize>)>, i: Option<usize>| {
        let ok = match (got, i.and_then(|i| want.get(i).map(|w| (i, w)))) {
            (None, None) => true,
            (Some((g, gid)), Some((i, w))) => {
                g == w.is_some() && (!g || !ident[i] || gid == *w)
            }
            _ => false,
        };
        if !ok {
            c.report(
                T_ITER,
                format!("{op} at {at:#x}: {what} gave {got:x?} (item {i:?} of {n})"),
                Some(img),
            );
        }
    };
    if let Some(r) = c.call(T_ITER, op, at, img, || it.clone().last().map(|x| id(&x))) {
        check(c, "last", r, n.checked_sub(1));
    }
    for k in [0usize, 1, n.wrapping_sub(1), n, n + 1, usize::MAX / 4 + 1, usize::MAX] {
        if let Some((r, r2)) = c.call(T_ITER, op, at, img, || {
            let mut j = it.clone();
            let a = j.nth(k).map(|x| id(&x));
            let b = j.next().map(|x| id(&x));
            (a, b)
        }) {
            check(c, &format!("nth({k})"), r, Some(k));
            check(c, &format!("nth({k}) then next"), r2, k.checked_add(1));
        }
    }
}

pub fn lookups(c: &mut Ctx, img: &[u8], m: &Model, k: &Kn, mk: MKey, cfg: &Cfg) {
    let mut probes: Vec<String> = cfg.extra_probes.clone();
    if let Some(Ok(s)) = m.subkeys(mk) {
        for e in s.ents.iter().take(24) {
            if let Ok(ck) = e {
                if let Ok(n) = m.key_name(*ck) {
                    let (t, bad) = decode(&m.name_units(n));
                    if !bad {
                        probes.push(t);
                    }
                }
            }
        }
        probes.dedup();
        for p in &probes {
            subkey(c, img, m, k, mk, &s, p);
        }
    } else {
        for p in probes.iter().take(2) {
            if let Some(got) = c.call(T_SUBK, "KeyNode::subkey", mk.p, img, || k.subkey(p)) {
                let want: Option<R<MKey>> = match m.lookup(mk, p) {
                    Look::Exact(x) => x,
                    _ => None,
                };
                agree_opt(c, T_SUBK, "KeyNode::subkey", mk.p, img, &got, &want);
            }
        }
    }
    // values by name
    let mut probes: Vec<String> = cfg.extra_probes.clone();
    if let Some(Ok(s)) = m.values(mk) {
        for v in s.iter().take(24).flatten() {
            if let Ok(n) = m.val_name(*v) {
                let (t, bad) = decode(&m.name_units(n));
                if !bad {
                    probes.push(t);
                }
            }
        }
    }
    probes.dedup();
    for p in &probes {
        value_lookup(c, img, m, k, mk, p);
    }
}

pub fn value_lookup(c: &mut Ctx, img: &[u8], m: &Model, k: &Kn, mk: MKey, p: &str) {
    let at = mk.p;
    let Some((got, id)) = c.call(T_VAL, "KeyNode::value", at, img, || {
        let r = k.value(p);
        let id = match &r {
            Some(Ok(v)) => val_id(img, v),
            _ => None,
        };
        (r, id)
    }) else {
        return;
    };
    let want = m.value(mk, p);
    if agree_opt(c, T_VAL, "KeyNode::value", at, img, &got, &want) {
        let w = want.unwrap().unwrap();
        let g = got.unwrap().ok().unwrap();
        let same = match id {
            Some(i) => i == w.p,
            None => {
                // empty name: identify by type, size and inline data pointer
                g.data_size() == m.data_size(w) && g.data_type().ok() == m.data_type(w).ok()
            }
        };
        if !same {
            c.report(
                T_VAL,
                format!("value({p:?}) at {at:#x}: gave record {id:x?}, expected {:#x}", w.p),
                Some(img),
            );
        }
    }
}

/// Checks one subkey lookup given the enumeration of the model.
pub fn subkey(c: &mut Ctx, img: &[u8], m: &Model, k: &Kn, mk: MKey, subs: &MSubs, p: &str) {
    let at = mk.p;
    let Some((got, id)) = c.call(T_SUBK, "KeyNode::subkey", at, img, || {
        let r = k.subkey(p);
        let id = match &r {
            Some(Ok(v)) => key_id(img, v),
            _ => None,
        };
        (r, id)
    }) else {
        return;
    };
    let look = m.lookup_in(subs, p);
    lookup_verdict(c, T_SUBK, "subkey", img, m, mk, p, &got, id, look);
}

#[allow(clippy::too_many_arguments)]
pub fn lookup_verdict<T>(
    c: &mut Ctx,
    tags: Tags,
    op: &str,
    img: &[u8],
    m: &Model,
    mk: MKey,
    p: &str,
    got: &Option<NR<T>>,
    id: Option<usize>,
    look: Look,
) {
    let at = mk.p;
    let (hits, exact) = match look {
        Look::Exact(w) => {
            agree_opt(c, tags, op, at, img, got, &w);
            return;
        }
        Look::OneOf(h) => (h, true),
        Look::Sound(h) => (h, false),
    };
    match got {
        None => {
            c.outcome(h(op, 0));
            if exact && !hits.is_empty() {
                c.report(
                    tags,
                    format!("{op}({p:?}) at {at:#x}: not found, but enumerated at {:#x}", hits[0].p),
                    Some(img),
                );
            }
        }
        Some(Ok(_)) => {
            c.outcome(h(op, 1));
            let ok = match id {
                Some(i) => hits.iter().any(|h| h.p == i),
                None => hits.iter().any(|h| m.key_name(*h).map_or(false, |n| n.s == n.e)),
            };
            if !ok {
                c.report(
                    tags,
                    format!(
                        "{op}({p:?}) at {at:#x}: returned record {id:x?}, matching records are {:x?}",
                        hits.iter().map(|h| h.p).collect::<Vec<_>>()
                    ),
                    Some(img),
                );
            }
        }
        Some(Err(e)) => {
            c.outcome(h(op, ek(e)));
            if exact {
                c.report(
                    tags,
                    format!("{op}({p:?}) at {at:#x}: failed with {e:?} on an undamaged list"),
                    Some(img),
                );
            } else if c.exact {
                let all = m.lookup_errors(mk);
                if !all.is_empty() && !all.iter().any(|x| x.matches(e)) {
                    c.report(
                        &["C17"],
                        format!("{op}({p:?}) at {at:#x}: reported {e:?}, damage is {all:?}"),
                        Some(img),
                    );
                }
            }
        }
    }
}

/// Path lookup against the composition of the implementation's own single lookups.
pub fn path(c: &mut Ctx, img: &[u8], m: &Model, k: &Kn, mk: MKey, p: &str) {
    let at = mk.p;
    let _ = m;
    let Some(got) = c.call(T_PATH, "KeyNode::subpath", at, img, || k.subpath(p)) else {
        return;
    };
    let Some(want) = c.call(T_PATH, "KeyNode::subkey chain", at, img, || {
        let mut cur = k.clone();
        let mut comp = String::new();
        let mut comps = vec![];
        for ch in p.chars() {
            if ch == '\\' {
                comps.push(std::mem::take(&mut comp));
            } else {
                comp.push(ch);
            }
        }
        comps.push(comp);
        for x in comps {
            if x.is_empty() {
                continue;
            }
            match cur.subkey(&x) {
                None => return None,
                Some(Err(e)) => return Some(Err(e)),
                Some(Ok(n)) => cur = n,
            }
        }
        Some(Ok(cur))
    }) else {
        return;
    };
    let same = match (&got, &want) {
        (None, None) => true,
        (Some(Ok(a)), Some(Ok(b))) => a == b,
        (Some(Err(a)), Some(Err(b))) => a == b,
        _ => false,
    };
    c.outcome(h("subpath", match &got {
        None => 0,
        Some(Ok(_)) => 1,
        Some(Err(e)) => ek(e),
    }));
    if !same {
        let d = |x: &Option<NR<Kn>>| match x {
            None => "absent".to_string(),
            Some(Err(e)) => format!("{e:?}"),
            Some(Ok(k)) => format!("key {:x?}", key_id(img, k)),
        };
        c.report(
            T_PATH,
            format!(
                "subpath({:?}) at {at:#x}: {} but component lookups give {}",
                &p.chars().take(60).collect::<String>(),
                d(&got),
                d(&want)
            ),
            Some(img),
        );
    }
}

/// Conversions of one name.
pub fn name_ops(c: &mut Ctx, img: &[u8], n: &NtHiveNameString, at: usize) {
    let (comp, b) = nbytes(n);
    let u = units_of(b, comp);
    let (text, bad) = decode(&u);
    let Some((len, empty, lossy, checked, disp)) = c.call(&["C14"], "NtHiveNameString", at, img, || {
        (
            n.len(),
            n.is_empty(),
            n.to_string_lossy(),
            n.to_string_checked(),
            format!("{n}"),
        )
    }) else {
        return;
    };
    c.transitions += 4;
    if len != b.len() || empty != b.is_empty() {
        c.report(&["C14"], format!("len {len} is_empty {empty} for {b:02x?}"), Some(img));
    }
    if lossy != text || disp != text {
        c.report(
            &["C14"],
            format!("{b:02x?}: lossy {lossy:?} display {disp:?} expected {text:?}"),
            Some(img),
        );
    }
    let want = if bad { None } else { Some(text) };
    if checked != want {
        c.report(
            &["C14"],
            format!("{b:02x?}: checked {checked:?} expected {want:?}"),
            Some(img),
        );
    }
}

pub fn value(c: &mut Ctx, img: &[u8], m: &Model, cfg: &Cfg, v: &Kv, mv: MVal) {
    let at = mv.p;
    if let Some(got) = c.call(T_VNAME, "KeyValue::name", at, img, || v.name()) {
        let want = m.val_name(mv);
        if agree(c, T_VNAME, "KeyValue::name", at, img, &got, &want) {
            let (g, w) = (got.unwrap(), want.unwrap());
            name_tags_check(c, T_VNAME, "KeyValue::name", at, img, &g, &w);
            if cfg.names {
                name_ops(c, img, &g, at);
            }
        }
    }
    if let Some(got) = c.call(T_DATA, "KeyValue::data_size", at, img, || v.data_size()) {
        if got != m.data_size(mv) {
            c.report(
                T_DATA,
                format!("data_size at {at:#x}: {got}, stored {}", m.data_size(mv)),
                Some(img),
            );
        }
    }
    data(c, img, m, v, mv, cfg.iters);
    if cfg.typed {
        typed(c, img, m, v, mv);
    }
}

pub fn data(c: &mut Ctx, img: &[u8], m: &Model, v: &Kv, mv: MVal, iters: bool) {
    let at = mv.p;
    let Some(got) = c.call(T_DATA, "KeyValue::data", at, img, || v.data()) else {
        return;
    };
    let want = m.data(mv);
    if !agree(c, T_DATA, "KeyValue::data", at, img, &got, &want) {
        return;
    }
    let (g, w) = (got.ok().unwrap(), want.ok().unwrap());
    // into_vec
    if let Some(gv) = c.call(T_DATA, "KeyValueData::into_vec", at, img, || g.clone().into_vec()) {
        let wv = m.data_vec(mv);
        if agree(c, T_DATA, "KeyValueData::into_vec", at, img, &gv, &wv) {
            let (a, b) = (gv.unwrap(), wv.unwrap());
            if a != b {
                let d = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                c.report(
                    T_DATA,
                    format!(
                        "data at {at:#x}: {} bytes, stored {} bytes, first difference at {d}",
                        a.len(),
                        b.len()
                    ),
                    Some(img),
                );
            }
        }
    }
    match (&g, &w) {
        (KeyValueData::Small(b), MData::Small(s, e)) => {
            if *b != &img[*s..*e] {
                c.report(T_DATA, format!("data at {at:#x}: small slice differs"), Some(img));
            } else if !b.is_empty() && b.as_ptr() as usize != img.as_ptr() as usize + s {
                c.report(T_DATA, format!("data at {at:#x}: slice from elsewhere"), Some(img));
            }
        }
        (KeyValueData::Big(it0), MData::Big(segs)) => {
            let mut it = it0.clone();
            let mut good = true;
            for (i, w) in segs.iter().enumerate() {
                let Some(g) = c.call(T_DATA, "BigDataSlices::next", at, img, || it.next()) else {
                    good = false;
                    break;
                };
                let Some(g) = g else {
                    c.report(
                        T_DATA,
                        format!("data at {at:#x}: segments ended after {i} of {}", segs.len()),
                        Some(img),
                    );
                    good = false;
                    break;
                };
                if agree(c, T_DATA, "BigDataSlices::next", at, img, &g, w) {
                    let (g, (s, e)) = (g.unwrap(), *w.as_ref().ok().unwrap());
                    if g != &img[s..e] || g.as_ptr() as usize != img.as_ptr() as usize + s {
                        c.report(
                            T_DATA,
                            format!(
                                "data at {at:#x}: segment {i} has {} bytes, expected {} at {s:#x}",
                                g.len(),
                                e - s
                            ),
                            Some(img),
                        );
                    }
                }
            }
            if good {
                if let Some(Some(x)) = c.call(T_DATA, "BigDataSlices::next", at, img, || it.next()) {
                    c.report(
                        T_DATA,
                        format!(
                            "data at {at:#x}: an extra segment {:?}",
                            x.map(|b| b.len())
                        ),
                        Some(img),
                    );
                }
            }
            if iters && good {
                let want: Vec<Option<usize>> =
                    segs.iter().map(|e| e.as_ref().ok().map(|k| k.0)).collect();
                let ident = vec![true; want.len()];
                let base = img.as_ptr() as usize;
                iter_ops(c, "BigDataSlices", at, img, it0, &want, &ident, true, |r| match r {
                    Ok(b) => (true, Some((b.as_ptr() as usize).wrapping_sub(base))),
                    Err(_) => (false, None),
                });
            }
        }
        (g, w) => {
            // Same bytes in another shape would have been noticed above unless the data is
            // delivered through the wrong storage class.
            let g = matches!(g, KeyValueData::Small(_));
            c.report(
                T_DATA,
                format!("data at {at:#x}: small={g}, stored as {w:?}"),
                Some(img),
            );
        }
    }
}

pub fn typed(c: &mut Ctx, img: &[u8], m: &Model, v: &Kv, mv: MVal) {
    let at = mv.p;
    if let Some(got) = c.call(T_TYPE, "KeyValue::data_type", at, img, || v.data_type()) {
        let want = m.data_type(mv);
        if agree(c, T_TYPE, "KeyValue::data_type", at, img, &got, &want) {
            let (g, w) = (got.unwrap(), want.unwrap());
            if g != w {
                c.report(T_TYPE, format!("data_type at {at:#x}: {g:?}, stored {w:?}"), Some(img));
            }
        }
    }
    if let Some(got) = c.call(T_NUM, "KeyValue::dword_data", at, img, || v.dword_data()) {
        let want = m.dword(mv);
        if agree(c, T_NUM, "KeyValue::dword_data", at, img, &got, &want)
            && got.as_ref().ok() != want.as_ref().ok()
        {
            c.report(T_NUM, format!("dword at {at:#x}: {got:x?}, stored {want:x?}"), Some(img));
        }
    }
    if let Some(got) = c.call(T_NUM, "KeyValue::qword_data", at, img, || v.qword_data()) {
        let want = m.qword(mv);
        if agree(c, T_NUM, "KeyValue::qword_data", at, img, &got, &want)
            && got.as_ref().ok() != want.as_ref().ok()
        {
            c.report(T_NUM, format!("qword at {at:#x}: {got:x?}, stored {want:x?}"), Some(img));
        }
    }
    if let Some(got) = c.call(T_STR, "KeyValue::string_data", at, img, || v.string_data()) {
        let (want, err_ok) = m.string(mv);
        if err_ok && c.exact {
            if let (Err(g), Err(w)) = (&got, m.data_vec(mv)) {
                if !w.matches(g) {
                    c.report(&["C17"], format!("string_data at {at:#x}: {g:?} expected {w:?}"), Some(img));
                }
            }
        }
        if !(err_ok && got.is_err())
            && agree(c, T_STR, "KeyValue::string_data", at, img, &got, &want)
        {
            let (g, w) = (got.unwrap(), want.unwrap());
            if g != w {
                c.report(
                    &["C11"],
                    format!("string_data at {at:#x}: {} expected {}", short(&g), short(&w)),
                    Some(img),
                );
            }
        }
    }
    multi(c, img, m, v, mv);
}

pub fn short(s: &str) -> String {
    let n = s.chars().count();
    if n <= 24 {
        format!("{s:?}")
    } else {
        let a: String = s.chars().take(10).collect();
        let b: String = s.chars().skip(n - 10).collect();
        format!("{a:?}..{b:?} ({n} chars)")
    }
}

pub fn multi(c: &mut Ctx, img: &[u8], m: &Model, v: &Kv, mv: MVal) {
    let at = mv.p;
    let Some(got) = c.call(T_MSTR, "KeyValue::multi_string_data", at, img, || v.multi_string_data())
    else {
        return;
    };
    let want = m.multi(mv);
    if let (Err(g), Ok((_, _, true))) = (&got, &want) {
        if let (true, Err(w)) = (c.exact, m.data_vec(mv)) {
            if !w.matches(g) {
                c.report(&["C17"], format!("multi_string_data at {at:#x}: {g:?} expected {w:?}"), Some(img));
            }
        }
        return;
    }
    if !agree(c, T_MSTR, "KeyValue::multi_string_data", at, img, &got, &want) {
        return;
    }
    let (strs, err, _) = want.ok().unwrap();
    let mut it = got.ok().unwrap();
    for (i, w) in strs.iter().enumerate() {
        let Some(g) = c.call(T_MSTR, "RegMultiSZStrings::next", at, img, || it.next()) else {
            return;
        };
        match g {
            Some(Ok(g)) => {
                if &g != w {
                    c.report(
                        &["C12"],
                        format!(
                            "multi_string at {at:#x}: string {i} is {} expected {}",
                            short(&g),
                            short(w)
                        ),
                        Some(img),
                    );
                    return;
                }
            }
            Some(Err(e)) => {
                c.report(
                    &["C12"],
                    format!("multi_string at {at:#x}: string {i} failed with {e:?}"),
                    Some(img),
                );
                return;
            }
            None => {
                c.report(
                    &["C12"],
                    format!("multi_string at {at:#x}: ended after {i} of {} strings", strs.len()),
                    Some(img),
                );
                return;
            }
        }
    }
    c.outcome(h("multi", strs.len().min(9) as u64));
    let Some(g) = c.call(T_MSTR, "RegMultiSZStrings::next", at, img, || it.next()) else {
        return;
    };
    match (g, err) {
        (Some(Err(g)), Some(w)) => {
            if c.exact && !w.matches(&g) {
                c.report(&["C17"], format!("multi_string at {at:#x}: {g:?} expected {w:?}"), Some(img));
            }
            // What follows an error is unspecified, but must end.
            for _ in 0..4 {
                let _ = c.call(T_MSTR, "RegMultiSZStrings::next", at, img, || it.next());
            }
        }
        (g, Some(w)) => {
            c.report(
                &["C12", "C03"],
                format!("multi_string at {at:#x}: gave {g:?} where segment damage must show as {w:?}"),
                Some(img),
            );
        }
        (None, None) => {
            for _ in 0..3 {
                if let Some(Some(g)) =
                    c.call(T_MSTR, "RegMultiSZStrings::next", at, img, || it.next())
                {
                    c.report(
                        &["C12", "C15"],
                        format!("multi_string at {at:#x}: resumed after its end with {g:?}"),
                        Some(img),
                    );
                    return;
                }
            }
        }
        (Some(g), None) => {
            c.report(
                &["C12"],
                format!(
                    "multi_string at {at:#x}: extra item {:?} after {} strings",
                    g.map(|s| short(&s)),
                    strs.len()
                ),
                Some(img),
            );
        }
    }
}

/// Clears volatile subkeys on a copy and compares every byte.
pub fn clear(c: &mut Ctx, img: &[u8]) {
    let m = Model::new(img);
    if img.len() < 4096 {
        return;
    }
    let (keys, damaged, paths, cyc) = m.reachable(100_000);
    if cyc || paths >= 100_000 {
        return; // unbounded recursion: a recorded finding, exercised in its own driver
    }
    let mut buf = img.to_vec();
    let Some(r) = c.call(T_CLEAR, "Hive::clear_volatile_subkeys", 0, img, || {
        let mut h = Hive::without_validation(&mut buf[..])?;
        h.clear_volatile_subkeys()
    }) else {
        return;
    };
    // Does zeroing a count change what is reachable (overlapping records)?
    let mut all = img.to_vec();
    for k in &keys {
        all[k.p + 24..k.p + 28].fill(0);
    }
    let m2 = Model::new(&all);
    let (keys2, damaged2, _, _) = m2.reachable(100_000);
    let stable = keys == keys2 && damaged == damaged2;
    c.outcome(h("clear", r.is_ok() as u64 + 2 * damaged as u64));
    if r.is_ok() && stable {
        if damaged && m.root().is_err() {
            c.report(&["C16", "C03"], "clear succeeded without a root key".into(), Some(img));
            return;
        }
        if buf != all && !damaged {
            let d = buf.iter().zip(&all).position(|(a, b)| a != b).unwrap();
            c.report(
                T_CLEAR,
                format!("clear succeeded, but byte {d:#x} is {:#x} instead of {:#x}", buf[d], all[d]),
                Some(img),
            );
            return;
        }
        if damaged {
            c.report(
                &["C16", "C03"],
                "clear reported success although a subkey list or entry is damaged".into(),
                Some(img),
            );
            return;
        }
    }
    if let Err(e) = &r {
        if stable && damaged && c.exact {
            let errs = |m: &Model| {
                let mut all: Vec<Ex> = vec![];
                if let Err(x) = m.root() {
                    all.push(x);
                }
                for k in &keys {
                    match m.subkeys(*k) {
                        None => {}
                        Some(Err(x)) => all.push(x),
                        Some(Ok(s)) => all.extend(s.ents.into_iter().filter_map(|x| x.err())),
                    }
                }
                all
            };
            let all = errs(&m);
            // Damage whose description depends on a count that clearing may have zeroed before
            // has no single true description.
            let unaffected = format!("{all:?}") == format!("{:?}", errs(&m2));
            if unaffected && !all.iter().any(|x| x.matches(e)) {
                c.report(
                    &["C17"],
                    format!("clear_volatile_subkeys: reported {e:?}, damage is {all:?}"),
                    Some(img),
                );
            }
        }
        if stable && !damaged {
            c.report(T_CLEAR, format!("clear failed with {e:?} on an undamaged tree"), Some(img));
            return;
        }
    }
    if stable {
        // Allowed: any subset of the counts zeroed, nothing else.
        let mut i = 0;
        let mut ok = true;
        let mut spots: Vec<usize> = keys.iter().map(|k| k.p + 24).collect();
        spots.sort();
        let mut si = 0;
        while i < buf.len() && ok {
            while si < spots.len() && spots[si] + 4 <= i {
                si += 1;
            }
            if si < spots.len() && i == spots[si] {
                let now = &buf[i..i + 4];
                if now != &img[i..i + 4] && now != [0; 4] {
                    ok = false;
                    break;
                }
                i += 4;
                continue;
            }
            let next = if si < spots.len() { spots[si] } else { buf.len() };
            if buf[i..next] != img[i..next] {
                ok = false;
                i += buf[i..next].iter().zip(&img[i..next]).position(|(a, b)| a != b).unwrap();
                break;
            }
            i = next;
        }
        if !ok {
            c.report(
                T_CLEAR,
                format!("clear ({r:?}) changed byte {i:#x}, which is no volatile count of a reachable key"),
                Some(img),
            );
        }
        if r.is_ok() {
            let snap = buf.clone();
            let r2 = c.call(T_CLEAR, "clear twice", 0, img, || {
                let mut h = Hive::without_validation(&mut buf[..])?;
                h.clear_volatile_subkeys()
            });
            if let Some(r2) = r2 {
                if r2.is_err() || buf != snap {
                    c.report(T_CLEAR, format!("second clear: {r2:?}, bytes changed: {}", buf != snap), Some(img));
                }
            }
        }
    }
}
