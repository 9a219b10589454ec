// Protocol of the probe processes. Input, repeated: a command byte and its arguments (LE):
//   I len:u32 shift:u32 bytes   new current hive; shift is its alignment or, with the topmost bit set,
//                               how many of its bytes lie below the middle of the address space
//   P pos:u32 width:u32 value:u32 flags:u32   patch it (undone by the next command)
//   Q                            end
// flags: 1 clear as well, 2 fewer probes. For I without patch follow with P width 0.
// Output per P: core:u64 alloc:u64 clear:u64 ops:u64.
// With argument "log", each P prints every operation's hash instead.

use crate::digest::*;
use alloc::vec::Vec;

pub trait Io {
    /// false at end of input
    fn read(&mut self, b: &mut [u8]) -> bool;
    fn write(&mut self, b: &[u8]);
    fn flush(&mut self);
    fn log(&mut self, what: &str, h: u64);
    /// An address with this much memory on both sides.
    fn middle(&mut self, _room: usize) -> Option<usize> {
        None
    }
}

const MAX: usize = 24;

pub fn all(img: &mut [u8], flags: u32, mut log: Option<&mut dyn FnMut(&str, u64)>) -> [u64; 4] {
    let mut d = D::new(img.as_ptr());
    d.lite = flags & 2 != 0;
    d.log = log.as_mut().map(|l| &mut **l as &mut dyn FnMut(&str, u64));
    open_digest(&mut d, &*img, MAX);
    new_digest(&mut d, &*img);
    let (core, al, mut ops) = (d.core.0, d.alloc.0, d.ops);
    let mut cl = 0;
    if flags & 1 != 0 {
        let mut d = D::new(img.as_ptr());
        d.lite = true;
        d.log = log;
        clear_digest(&mut d, img, 6);
        cl = d.core.0;
        ops += d.ops;
    }
    [core, al, cl, ops]
}

pub fn serve(io: &mut dyn Io, log: bool) {
    let mut buf: Vec<u8> = Vec::new();
    let mut img: Vec<u8> = Vec::new();
    let mut shift = 0usize;
    let mut at = 0usize;
    let mut mid: Option<usize> = None;
    loop {
        let mut c = [0u8; 1];
        if !io.read(&mut c) {
            return;
        }
        match c[0] {
            b'I' => {
                let mut a = [0u8; 8];
                io.read(&mut a);
                let n = u32::from_le_bytes([a[0], a[1], a[2], a[3]]) as usize;
                shift = u32::from_le_bytes([a[4], a[5], a[6], a[7]]) as usize;
                img.clear();
                img.resize(n, 0);
                io.read(&mut img);
                buf.clear();
                buf.resize(n + 48, 0xA5);
                mid = None;
                if shift >> 31 == 1 {
                    mid = io.middle(n).map(|m| m - (shift & 0x7FFF_FFFF).min(n));
                    shift = 0;
                }
                at = (16 - buf.as_ptr() as usize % 16) % 16 + shift;
            }
            b'P' => {
                let mut a = [0u8; 16];
                io.read(&mut a);
                let g = |i: usize| u32::from_le_bytes([a[i], a[i + 1], a[i + 2], a[i + 3]]);
                let (pos, w, v, fl) = (g(0) as usize, g(4) as usize, g(8), g(12));
                let n = img.len();
                let b: &mut [u8] = match mid {
                    Some(m) => unsafe { core::slice::from_raw_parts_mut(m as *mut u8, n) },
                    None => &mut buf[at..at + n],
                };
                b.copy_from_slice(&img);
                b[pos..pos + w].copy_from_slice(&v.to_le_bytes()[..w]);
                let r = if log {
                    let mut f = |s: &str, h: u64| io.log(s, h);
                    all(b, fl, Some(&mut f))
                } else {
                    all(b, fl, None)
                };
                if !log {
                    for x in r {
                        io.write(&x.to_le_bytes());
                    }
                }
            }
            b'F' => io.flush(),
            _ => {
                io.flush();
                return;
            }
        }
        let _ = shift;
    }
}
