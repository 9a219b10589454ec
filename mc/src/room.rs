//! Cells larger than their contents: every cell of a hive grown by every amount of a list, with
//! whatever behind the contents.

use crate::cross::Item;
use crate::engine::*;
use crate::img::*;
use crate::inv;
use crate::refs;
use crate::walk::*;
use std::sync::Arc;

const FILLS: [&str; 4] = ["zeros", "ones", "the contents once more", "a key record over and over"];

fn fill(kind: usize, cell: &mut Vec<u8>, extra: usize) {
    let n = cell.len();
    let nk = [0x6E, 0x6B, 0x20, 0, 0x20, 0, 0, 0];
    for i in 0..extra {
        let x = match kind {
            0 => 0,
            1 => 0xFF,
            2 => cell[4 + i % (n - 4)],
            _ => nk[i % 8],
        };
        cell.push(x);
    }
}

/// By how much a cell of `size` bytes is grown.
fn extras(size: usize, thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=if thorough { 512 } else { 33 }).map(|k| 8 * k).collect();
    for k in 9..=20 {
        v.extend([(1usize << k) - 8, 1 << k, (1 << k) + 8]);
    }
    // payloads around the sizes with a meaning: segments, 2^15 and 2^16 bytes or entries
    for p in [SEG, 2 * SEG, 1 << 15, 1 << 16, 4 << 16, 8 << 16] {
        for d in 0..7 {
            let t = (p + 8 * d - 24).next_multiple_of(8);
            if t > size {
                v.push(t - size);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

fn hives(thorough: bool) -> Vec<(String, Img)> {
    let mut v = inv::small(thorough);
    v.extend(refs::sd().into_iter().map(|(n, i)| (n.to_string(), i)));
    v
}

struct Space {
    hives: Arc<Vec<(String, Img)>>,
    /// (hive, cell, bytes; usize::MAX cells = all of them)
    cases: Vec<(usize, usize, usize)>,
}

impl Space {
    fn new(thorough: bool) -> Space {
        let hives = hives(thorough);
        let mut cases = vec![];
        for (h, (_, img)) in hives.iter().enumerate() {
            for (k, c) in img.cells.iter().enumerate() {
                cases.extend(extras(c.1 as usize, thorough).into_iter().map(|e| (h, k, e)));
            }
            cases.extend(extras(0, false).into_iter().filter(|e| *e <= 1 << 14).map(|e| (h, usize::MAX, e)));
        }
        Space { hives: Arc::new(hives), cases }
    }
    fn what(&self, i: u64) -> String {
        let (h, k, e) = self.cases[i as usize];
        let w = &self.hives[h].0;
        match k {
            usize::MAX => format!("{w}: {e} bytes more in every cell"),
            k => format!("{w}: {e} bytes more in cell {k}"),
        }
    }
    fn image(&self, i: u64, kind: usize) -> Vec<u8> {
        let (h, k, e) = self.cases[i as usize];
        let img = &self.hives[h].1;
        let perm: Vec<usize> = (0..img.cells.len()).collect();
        inv::relocate_with(img, &perm, 0, &|j, cell| {
            if j == k || k == usize::MAX {
                fill(kind, cell, e);
            }
        })
    }
    fn bound(&self) -> String {
        let amounts = extras(16, false).len();
        format!("{} hives: every single cell, and all, grown by at least {amounts} amounts of up to 1 MiB, filled with zeros, ones, the contents again, or records", self.hives.len())
    }
}

/// The lockstep walk over all of them.
pub fn walks(name: &'static str, cfg: Cfg, thorough: bool) -> Drv {
    let s = Space::new(thorough);
    Drv::new(name, s.bound(), s.cases.len() as u64, move |i, c| {
        c.sample(|| s.what(i));
        for k in 0..FILLS.len() {
            walk(c, &s.image(i, k), &cfg);
        }
    })
    .chunk(8)
}

/// Nothing readable changes, and the same counters are cleared.
pub fn inert(name: &'static str, tags: &'static [&'static str], thorough: bool) -> Drv {
    let s = Space::new(thorough);
    let want: Vec<_> = s.hives.iter().map(|(_, i)| (inv::render(&i.bytes), inv::cleared(&i.bytes))).collect();
    Drv::new(name, s.bound(), s.cases.len() as u64, move |i, c| {
        c.sample(|| s.what(i));
        let w = &want[s.cases[i as usize].0];
        for (k, f) in FILLS.iter().enumerate() {
            let b = s.image(i, k);
            c.states += 1;
            c.transitions += 1;
            match quiet(|| (inv::render(&b), inv::cleared(&b))) {
                Ok(got) => {
                    if got != *w {
                        let d = got.0.lines().zip(w.0.lines()).find(|(a, b)| a != b).map(|(a, b)| format!("{a:?} instead of {b:?}")).unwrap_or("other counters cleared".into());
                        c.report(tags, format!("{} ({f}): {d}", s.what(i)), Some(&b));
                    }
                }
                Err(e) => c.report(&["C01", "C22"], format!("{} ({f}): panic {e}", s.what(i)), Some(&b)),
            }
        }
    })
    .chunk(8)
}

/// Some of them as plain images.
pub fn items() -> Vec<Item> {
    let s = Space::new(false);
    (0..s.cases.len() as u64)
        .filter(|i| [8, 64, 4096, 1 << 16, 1 << 19].contains(&s.cases[*i as usize].2))
        .flat_map(|i| [1, 2].map(|k| Item::new(&s.what(i), s.image(i, k))))
        .collect()
}
