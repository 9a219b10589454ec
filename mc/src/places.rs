//! Hives at chosen addresses (C19): buffers that lie across, end at or start at addresses where a
//! calculation with too few bits, or with a sign, would go wrong.

use crate::cross::Item;
use crate::engine::*;
use crate::img::*;
use crate::proto;

const T: &[&str] = &["C19"];

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
}

/// Zeroed pages at a fixed address, if nothing lies there.
struct Region {
    at: usize,
    len: usize,
}

impl Region {
    fn new(at: usize, len: usize) -> Option<Region> {
        // PROT_READ | PROT_WRITE; MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE
        let p = unsafe { mmap(at as *mut u8, len, 3, 0x2 | 0x20 | 0x10_0000, -1, 0) };
        if p as isize == -1 {
            return None;
        }
        if p as usize != at {
            unsafe { munmap(p, len) };
            return None;
        }
        Some(Region { at, len })
    }
    fn get(&mut self, at: usize, len: usize) -> &mut [u8] {
        assert!(at >= self.at && at + len <= self.at + self.len);
        unsafe { std::slice::from_raw_parts_mut(at as *mut u8, len) }
    }
}

impl Drop for Region {
    fn drop(&mut self) {
        unsafe { munmap(self.at as *mut u8, self.len) };
    }
}

/// Powers of two and their odd multiples below the end of the address space.
fn points(few: bool) -> Vec<usize> {
    if few {
        return [20, 24, 28, 31, 32, 33, 34, 36, 40, 44, 46].iter().map(|k| 1usize << k).chain([3 << 31, 7 << 31]).collect();
    }
    let mut v: Vec<usize> = (20..=46).map(|k| 1usize << k).collect();
    v.extend([3usize << 30, 3 << 31, 5 << 31, 7 << 31, 3 << 32, 3 << 40, 0xFFFF << 31, 0xFFFF << 30]);
    v.extend([(1usize << 33) - (1 << 31), (1 << 40) - (1 << 31), (1 << 46) + (1 << 31)]);
    v
}

/// The seeds as they are.
pub fn seeds(sd: &[(&'static str, Img)]) -> Vec<Item> {
    sd.iter().map(|(n, i)| Item::new(n, i.bytes.clone())).collect()
}

/// Every item placed so that `cuts` of its bytes lie below each of the addresses.
pub fn addresses(name: &'static str, what: &str, items: Vec<Item>, step: usize, few: bool) -> Drv {
    let pts = points(few);
    let np = pts.len();
    const SLICES: usize = 16;
    Drv::new(
        name,
        format!(
            "{} hives ({what}) laid across {np} addresses (2^20 to 2^46 and multiples of 2^31 and 2^32; those that are free): split after the header, in the middle{}, and ending there",
            items.len(),
            if step < BASE { format!(", after 0, 1, 508, 4095 bytes and at every {step}th byte of the data") } else { String::new() }
        ),
        (np * SLICES) as u64,
        move |idx, c| {
            let a = pts[idx as usize % np];
            c.sample(|| format!("across {a:#x}"));
            // one slice of the items; another place of the same boundary cannot be mapped twice
            let half = 1 << 18;
            let _own = lock(idx as usize % np);
            let Some(mut r) = Region::new(a - half, 2 * half) else { return };
            for it in items.iter().skip(idx as usize / np).step_by(SLICES) {
                let b = it.bytes();
                if b.len() > half {
                    continue;
                }
                let Some(w) = crate::cross::here(&b, 0) else { continue };
                c.states += 1;
                let mut cuts = vec![BASE, b.len() / 2, b.len()];
                if step < BASE {
                    cuts.extend([0, 1, 508, BASE - 1, b.len() - 1]);
                }
                cuts.extend((BASE..b.len()).step_by(step));
                for cut in cuts {
                    if cut > b.len() {
                        continue;
                    }
                    let m = r.get(a - cut, b.len());
                    m.copy_from_slice(&b);
                    c.transitions += w[3];
                    match quiet(|| proto::all(m, 0, None)) {
                        Ok(g) if g[..2] == w[..2] => (),
                        Ok(_) => c.report(T, format!("{}: results differ at address {:#x} ({cut} bytes below {a:#x})", it.what(), a - cut), Some(&b)),
                        Err(e) => c.report(T, format!("{}: panics at address {:#x} ({cut} bytes below {a:#x}): {e}", it.what(), a - cut), Some(&b)),
                    }
                }
            }
        },
    )
    .chunk(1)
}

/// The threads take turns at one address.
fn lock(i: usize) -> std::sync::MutexGuard<'static, ()> {
    use std::sync::Mutex;
    static L: [Mutex<()>; 64] = [const { Mutex::new(()) }; 64];
    L[i % 64].lock().unwrap_or_else(|e| e.into_inner())
}
