//! Header families (C02).

use crate::engine::*;
use crate::img::*;
use crate::model::*;
use crate::walk::*;
use nt_hive::{Hive, HiveMinorVersion};

/// Opens the input in both ways and compares everything with the model.
pub fn verdict(c: &mut Ctx, b: &[u8]) {
    c.states += 1;
    let m = Model::new(b);
    let Some(h) = open(c, b) else {
        if let Some(r) = c.call(&["C02"], "Hive::new", 0, b, || Hive::new(b).map(|_| ())) {
            if b.len() >= 4096 {
                return;
            }
            header_verdict(c, b, "Hive::new", &m, &r);
        }
        return;
    };
    validate(c, b, &h);
}

fn upd(b: &mut [u8], pos: usize, v: u32) {
    b[pos..pos + 4].copy_from_slice(&v.to_le_bytes());
}

const FIELDS: [(&str, usize, &[u32]); 10] = [
    ("signature", 0, &[0x66676572, 0x66676552, 0x67666572, 0, 0x66676573, 0x65676572]),
    ("primary sequence", 4, &[7, 8, 0x07000007, 0]),
    ("secondary sequence", 8, &[7, 8]),
    ("major version", 20, &[1, 0, 2, 0x10001, 0x01000001]),
    ("minor version", 24, &[5, 0, 1, 2, 3, 4, 6, 7, 0xFFFF_FFFF, 0x0100_0002]),
    ("file type", 28, &[0, 1, 2, 0x100]),
    ("file format", 32, &[1, 0, 2, 0x101]),
    ("data size", 40, &[4096, 0, 8192, 12288, 4095, 4097, 2048, 0xFFFF_F000, 0x8000_0000]),
    ("clustering factor", 44, &[1, 0, 2, 8]),
    ("checksum", 508, &[0, 1, 2, 3, 4]),
];

/// The full product of header field variants and checksum kinds on three buffer sizes.
pub fn product(name: &'static str) -> Drv {
    let inner: u64 = FIELDS[7..].iter().map(|f| f.2.len() as u64).product();
    let n: u64 = FIELDS[..7].iter().map(|f| f.2.len() as u64).product();
    Drv::new(
        name,
        format!("full product of variants of all 10 validated header fields x 4 buffer lengths ({} headers)", n * inner * 4),
        n,
        move |idx, c| {
            let mut i = idx;
            let mut b = header(0x20, 5, 4096);
            b.resize(4096 + 8192, 0);
            let mut s = String::new();
            for f in &FIELDS[..7] {
                let v = f.2[(i % f.2.len() as u64) as usize];
                i /= f.2.len() as u64;
                upd(&mut b, f.1, v);
                s += &format!("{}={v:#x} ", f.0);
            }
            c.sample(|| s);
            for ds in FIELDS[7].2 {
                upd(&mut b, 40, *ds);
                for cf in FIELDS[8].2 {
                    upd(&mut b, 44, *cf);
                    let good = stored_sum(xor_sum(&b));
                    for k in FIELDS[9].2 {
                        let v = match k {
                            0 => good,
                            1 => good ^ 1,
                            2 => xor_sum(&b) ^ 0x8000_0000,
                            3 => 0,
                            _ => u32::MAX,
                        };
                        upd(&mut b, 508, v);
                        for l in [4096usize, 8191, 8192, 12288] {
                            verdict(c, &b[..l]);
                        }
                    }
                }
            }
        },
    )
    .chunk(8)
}

/// Every byte of the base block x every value, checksum left alone or repaired.
pub fn bytes(name: &'static str) -> Drv {
    Drv::new(name, "every byte of the 4096-byte header x all 256 values, with the stored and with a repaired checksum", 4096, |idx, c| {
        let mut b = header(0x20, 5, 4096);
        b.resize(8192, 0);
        c.sample(|| format!("header byte {idx:#x}"));
        for v in 0..=255u8 {
            let mut x = b.clone();
            x[idx as usize] = v;
            verdict(c, &x);
            if idx < 508 {
                fix_checksum(&mut x);
                verdict(c, &x);
            }
        }
    })
    .chunk(16)
}

/// Every pair of header bits flipped.
pub fn bits(name: &'static str, all: bool) -> Drv {
    let pos: Vec<usize> = (0..512).filter(|b| all || *b < 48 || *b >= 508).flat_map(|b| (0..8).map(move |k| 8 * b + k)).collect();
    let n = pos.len();
    Drv::new(
        name,
        format!("every single bit and pair of bits of {} header bytes flipped ({} pairs), with the stored and with a repaired checksum", n / 8, n * (n - 1) / 2),
        n as u64,
        move |idx, c| {
            let p = pos[idx as usize];
            c.sample(|| format!("header bit {p}"));
            let mut b = header(0x20, 5, 4096);
            b.resize(8192, 0);
            b[p / 8] ^= 1 << (p % 8);
            let stored: [u8; 4] = b[508..512].try_into().unwrap();
            verdict(c, &b);
            for q in &pos[idx as usize + 1..] {
                b[q / 8] ^= 1 << (q % 8);
                verdict(c, &b);
                if *q < 508 * 8 {
                    fix_checksum(&mut b);
                    verdict(c, &b);
                    b[508..512].copy_from_slice(&stored);
                }
                b[q / 8] ^= 1 << (q % 8);
            }
        },
    )
    .chunk(1)
}

/// Every input length.
pub fn lengths(name: &'static str) -> Drv {
    Drv::new(name, "every input length 0..=12300 x data sizes 0, 4096, 8192", 12301, |idx, c| {
        c.sample(|| format!("{idx} bytes"));
        for ds in [0u32, 4096, 8192] {
            let mut b = header(0x20, 5, ds);
            b.resize(12300, 0);
            verdict(c, &b[..idx as usize]);
        }
    })
    .chunk(32)
}

/// Checksum corner values reached through every word of the header; cancelling word pairs.
pub fn checksums(name: &'static str) -> Drv {
    Drv::new(
        name,
        "for every header word: the word chosen so that the XOR is 0, 1, 2, -1, -2, -3 or mixed, with 8 stored checksums each; every pair of words changed by the same mask or swapped",
        128,
        |idx, c| {
            let w = idx as usize;
            c.sample(|| format!("header word {w}"));
            let mut base = header(0x20, 5, 4096);
            base.resize(8192, 0);
            if w < 127 {
                for target in [0u32, 1, 2, u32::MAX, u32::MAX - 1, u32::MAX - 2, 0x1234_5678] {
                    let mut b = base.clone();
                    let cur = u32::from_le_bytes(b[4 * w..4 * w + 4].try_into().unwrap());
                    let x = xor_sum(&b);
                    upd(&mut b, 4 * w, cur ^ x ^ target);
                    for st in [0u32, 1, 2, u32::MAX, u32::MAX - 1, u32::MAX - 2, target, target ^ 0x100] {
                        upd(&mut b, 508, st);
                        verdict(c, &b);
                    }
                }
                for v in w + 1..127 {
                    for mask in [1u32, 0x8000_0000, 0xFFFF_FFFF, 0x00FF_0000] {
                        let mut b = base.clone();
                        for p in [w, v] {
                            let cur = u32::from_le_bytes(b[4 * p..4 * p + 4].try_into().unwrap());
                            upd(&mut b, 4 * p, cur ^ mask);
                        }
                        verdict(c, &b);
                    }
                    let mut b = base.clone();
                    for k in 0..4 {
                        b.swap(4 * w + k, 4 * v + k);
                    }
                    verdict(c, &b);
                }
            } else {
                for st in 0..=4095u32 {
                    let mut b = base.clone();
                    upd(&mut b, 508, st.wrapping_mul(0x0100_0801));
                    verdict(c, &b);
                }
            }
        },
    )
}

/// Versions and data sizes in bulk.
pub fn bulk(name: &'static str, tier: Tier) -> Drv {
    let step = if tier == Tier::Quick { 8 } else { 1 };
    Drv::new(
        name,
        format!("major and minor versions 0..=65535 and all single bits; sequence number pairs differing in each bit; every {step}-th multiple of 4096 as data size with offsets 0, 1, 8, 512, 2048, 4095"),
        1024,
        move |idx, c| {
            c.sample(|| format!("block {idx}"));
            let mut b = header(0x20, 5, 4096);
            b.resize(4096 + 20480, 0);
            let set = |b: &mut Vec<u8>, pos: usize, v: u32| {
                upd(b, pos, v);
                fix_checksum(b);
            };
            for k in 0..64u32 {
                let v = idx as u32 * 64 + k;
                for p in [20usize, 24] {
                    let mut x = b.clone();
                    set(&mut x, p, v);
                    verdict(c, &x);
                    // the names of the known versions
                    let named = HiveMinorVersion::n(v).map(|n| n as u32);
                    if named != (v <= 6).then_some(v) {
                        c.report(&["C02"], format!("HiveMinorVersion::n({v}) is {named:?}"), None);
                    }
                }
            }
            if idx < 32 {
                for p in [0usize, 4, 8, 20, 24, 28, 32, 40, 44] {
                    let mut x = b.clone();
                    let cur = u32::from_le_bytes(x[p..p + 4].try_into().unwrap());
                    set(&mut x, p, cur ^ 1 << idx);
                    verdict(c, &x);
                }
                let mut x = b.clone();
                upd(&mut x, 4, 1 << idx);
                set(&mut x, 8, 1 << idx);
                verdict(c, &x);
            }
            for k in (0..1024u32).step_by(step) {
                let pages = idx as u32 * 1024 + k;
                for o in [0u32, 1, 8, 512, 2048, 4095] {
                    set(&mut b, 40, (pages * 4096).wrapping_add(o));
                    verdict(c, &b);
                }
            }
        },
    )
}

/// Data sizes up to the largest possible against buffers of almost that size.
pub fn huge(name: &'static str) -> Drv {
    let mut ls: Vec<u64> = vec![];
    for p in 13..=32u32 {
        for d in [-4096i64, -1, 0, 1, 4095, 4096] {
            ls.push(((1i64 << p) + d).min((1 << 32) - 4096 + if d == 1 { 1 } else { 0 }) as u64);
        }
    }
    ls.push(1 << 32);
    ls.sort();
    ls.dedup();
    let n = ls.len() as u64;
    Drv::new(
        name,
        format!("{n} data lengths from 4 KiB to 4 GiB (around every power of two) x 11 declared data sizes around them"),
        n,
        move |idx, c| {
            let l = ls[idx as usize];
            c.sample(|| format!("{l:#x} bytes of data"));
            crate::refs::with_far(|buf| {
                let fit = (l / 4096 * 4096).min(0xFFFF_F000);
                for v in [fit, fit.wrapping_add(4096), fit.wrapping_sub(4096), fit + 1, fit.wrapping_sub(1), fit / 2, fit / 2 * 3, 0, 4096, 0x8000_0000, 0xFFFF_F000] {
                    let h = header(0x20, 5, v as u32);
                    buf[..4096].copy_from_slice(&h);
                    verdict(c, &buf[..4096 + l as usize]);
                }
                buf[..4096].fill(0);
            });
        },
    )
}

/// Pairs of related header numbers over all numbers made of extreme bytes.
pub fn grid(name: &'static str, tier: Tier) -> Drv {
    let bytes: &[u8] = if tier == Tier::Quick { &[0, 1, 0x7F, 0x80, 0xFF] } else { &[0, 1, 2, 3, 0x7F, 0x80, 0xFE, 0xFF] };
    let k = bytes.len() as u32;
    let g: Vec<u32> = (0..k.pow(4)).map(|i| u32::from_le_bytes([0, 1, 2, 3].map(|j| bytes[(i / k.pow(j) % k) as usize]))).collect();
    let n = g.len() as u64;
    Drv::new(
        name,
        format!("all {n}^2 pairs of numbers with bytes out of {bytes:02x?} as (primary, secondary sequence number), (true, stored checksum) and (major, minor version); each in the other fields"),
        n,
        move |idx, c| {
            let a = g[idx as usize];
            c.sample(|| format!("pairs of {a:#x}"));
            let mut base = header(0x20, 5, 4096);
            base.resize(8192, 0);
            let mut b = base.clone();
            upd(&mut b, 4, a);
            for x in &g {
                upd(&mut b, 8, *x);
                fix_checksum(&mut b);
                verdict(c, &b);
            }
            let mut b = base.clone();
            let cur = u32::from_le_bytes(b[12..16].try_into().unwrap());
            let x = xor_sum(&b);
            upd(&mut b, 12, cur ^ x ^ a);
            for x in &g {
                upd(&mut b, 508, *x);
                verdict(c, &b);
            }
            let mut b = base.clone();
            upd(&mut b, 20, a);
            for x in &g {
                upd(&mut b, 24, *x);
                fix_checksum(&mut b);
                verdict(c, &b);
            }
            for p in [0, 12, 16, 20, 24, 28, 32, 36, 40, 44, 48, 112, 504, 508, 512, 4088, 4092] {
                let mut b = base.clone();
                upd(&mut b, p, a);
                verdict(c, &b);
                if p < 508 {
                    fix_checksum(&mut b);
                    verdict(c, &b);
                }
            }
        },
    )
    .chunk(4)
}

/// Whatever an unchecked word holds, it must not excuse a bad field nor spoil a good header.
pub fn excuses(name: &'static str) -> Drv {
    let mut bad: Vec<(String, Vec<u8>, u32)> = vec![];
    for f in &FIELDS[..9] {
        for v in f.2 {
            let mut b = header(0x20, 5, 4096);
            b.resize(8192, 0);
            upd(&mut b, f.1, *v);
            bad.push((format!("{} {v:#x}", f.0), b, 0));
        }
    }
    for d in [1u32, 1 << 31, u32::MAX] {
        let mut b = header(0x20, 5, 4096);
        b.resize(8192, 0);
        bad.push((format!("checksum off by {d:#x}"), b, d));
    }
    let words: Vec<usize> = (12..BASE).step_by(4).filter(|p| ![20, 24, 28, 32, 40, 44, 508].contains(p)).collect();
    let tags = [b"OfRg", b"rmtm", b"regf", b"hbin", b"DIRT"].map(|t| u32::from_le_bytes(*t));
    let vals: Vec<u32> = (0..32).map(|k| 1u32 << k).chain([0, 3, 5, 7, u32::MAX, 0x7FFF_FFFF, 0xFFFF_0000, 0xFFFF, 0x0065_0072]).chain(tags).collect();
    let n = words.len() as u64;
    Drv::new(
        name,
        format!("each of the {n} unchecked words of the header x {} values x {} headers (each checked field good or bad, the checksum right; or the checksum wrong)", vals.len(), bad.len()),
        n,
        move |idx, c| {
            let p = words[idx as usize];
            c.sample(|| format!("word {p:#x}"));
            for (_, b, d) in &bad {
                let mut b = b.clone();
                for v in &vals {
                    upd(&mut b, p, *v);
                    fix_checksum(&mut b);
                    let s = u32::from_le_bytes(b[508..512].try_into().unwrap());
                    upd(&mut b, 508, s ^ d);
                    verdict(c, &b);
                }
            }
        },
    )
    .chunk(8)
}
