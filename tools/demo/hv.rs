//! A small writer of registry hives for the demonstrations.
#![allow(dead_code)]
pub const NONE: u32 = u32::MAX;

pub struct Hv {
    pub d: Vec<u8>,
    pub minor: u32,
}

#[derive(Clone)]
pub struct Nk<'a> {
    pub flags: u16,
    pub name: &'a [u8],
    pub list: u32,
    pub subkeys: u32,
    pub volatile: u32,
    pub values: u32,
    pub value_count: u32,
    pub class: u32,
    pub class_len: u16,
}

pub fn nk(name: &str) -> Nk<'_> {
    Nk { flags: 0x20, name: name.as_bytes(), list: NONE, subkeys: 0, volatile: 0, values: NONE, value_count: 0, class: NONE, class_len: 0 }
}

pub fn put32(b: &mut [u8], at: usize, v: u32) {
    b[at..at + 4].copy_from_slice(&v.to_le_bytes());
}
pub fn utf16(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect()
}

impl Hv {
    pub fn new() -> Self {
        let mut d = vec![0u8; 32];
        d[..4].copy_from_slice(b"hbin");
        Hv { d, minor: 5 }
    }

    /// Appends an allocated cell; returns its offset.
    pub fn cell(&mut self, payload: &[u8]) -> u32 {
        self.cell_with(payload, 0)
    }

    /// The same, with the rest of the cell (at least `spare` bytes) filled with 0xEE.
    pub fn cell_with(&mut self, payload: &[u8], spare: usize) -> u32 {
        let at = self.d.len();
        let size = (4 + payload.len() + spare + 7) & !7;
        self.d.extend_from_slice(&(-(size as i32)).to_le_bytes());
        self.d.extend_from_slice(payload);
        self.d.resize(at + size, 0xEE);
        at as u32
    }

    pub fn free(&mut self, at: u32) {
        let at = at as usize;
        let s = i32::from_le_bytes(self.d[at..at + 4].try_into().unwrap());
        self.d[at..at + 4].copy_from_slice(&s.abs().to_le_bytes());
    }

    pub fn key(&mut self, k: Nk) -> u32 {
        let mut b = vec![0u8; 76];
        b[..2].copy_from_slice(b"nk");
        b[2..4].copy_from_slice(&k.flags.to_le_bytes());
        put32(&mut b, 20, k.subkeys);
        put32(&mut b, 24, k.volatile);
        put32(&mut b, 28, k.list);
        put32(&mut b, 32, NONE);
        put32(&mut b, 36, k.value_count);
        put32(&mut b, 40, k.values);
        put32(&mut b, 44, NONE);
        put32(&mut b, 48, k.class);
        b[72..74].copy_from_slice(&(k.name.len() as u16).to_le_bytes());
        b[74..76].copy_from_slice(&k.class_len.to_le_bytes());
        b.extend_from_slice(k.name);
        self.cell(&b)
    }

    /// A subkeys list of the given format (`lf`, `lh`, `li`, `ri`).
    pub fn list(&mut self, sig: &[u8; 2], items: &[u32]) -> u32 {
        let mut b = sig.to_vec();
        b.extend_from_slice(&(items.len() as u16).to_le_bytes());
        for i in items {
            b.extend_from_slice(&i.to_le_bytes());
            if sig == b"lf" || sig == b"lh" {
                b.extend_from_slice(&[0; 4]);
            }
        }
        self.cell(&b)
    }

    pub fn value_raw(&mut self, name: &[u8], flags: u16, ty: u32, size: u32, data: u32) -> u32 {
        let mut b = b"vk".to_vec();
        b.extend_from_slice(&(name.len() as u16).to_le_bytes());
        b.extend_from_slice(&size.to_le_bytes());
        b.extend_from_slice(&data.to_le_bytes());
        b.extend_from_slice(&ty.to_le_bytes());
        b.extend_from_slice(&flags.to_le_bytes());
        b.extend_from_slice(&[0, 0]);
        b.extend_from_slice(name);
        self.cell(&b)
    }

    /// A value with Latin-1 name, its data inline (up to 4 bytes), in one cell, or in segments.
    pub fn value(&mut self, name: &str, ty: u32, data: &[u8]) -> u32 {
        let n = data.len();
        if n <= 4 {
            let mut w = [0xEEu8; 4];
            w[..n].copy_from_slice(data);
            return self.value_raw(name.as_bytes(), 1, ty, 0x8000_0000 | n as u32, u32::from_le_bytes(w));
        }
        let at = if n <= 16344 || self.minor < 4 { self.cell(data) } else { self.big(data).0 };
        self.value_raw(name.as_bytes(), 1, ty, n as u32, at)
    }

    /// Big data: offset of its header and of its segments.
    pub fn big(&mut self, data: &[u8]) -> (u32, Vec<u32>) {
        let segs: Vec<u32> = data.chunks(16344).map(|c| self.cell_with(c, 4)).collect();
        let l: Vec<u8> = segs.iter().flat_map(|s| s.to_le_bytes()).collect();
        let l = self.cell(&l);
        let mut b = b"db".to_vec();
        b.extend_from_slice(&(segs.len() as u16).to_le_bytes());
        b.extend_from_slice(&l.to_le_bytes());
        (self.cell(&b), segs)
    }

    pub fn values(&mut self, v: &[u32]) -> u32 {
        let l: Vec<u8> = v.iter().flat_map(|s| s.to_le_bytes()).collect();
        self.cell(&l)
    }

    /// A root key with these values.
    pub fn root_of_values(mut self, v: &[u32]) -> Vec<u8> {
        let l = self.values(v);
        let mut k = nk("root");
        k.values = l;
        k.value_count = v.len() as u32;
        let r = self.key(k);
        self.finish(r)
    }

    /// A root key with this subkeys list.
    pub fn root_of_list(mut self, l: u32, n: usize) -> Vec<u8> {
        let mut k = nk("root");
        k.list = l;
        k.subkeys = n as u32;
        let r = self.key(k);
        self.finish(r)
    }

    pub fn finish(mut self, root: u32) -> Vec<u8> {
        let n = (self.d.len() + 4095) & !4095;
        self.d.resize(n, 0);
        put32(&mut self.d, 8, n as u32);
        let mut h = vec![0u8; 4096];
        h[..4].copy_from_slice(b"regf");
        put32(&mut h, 4, 1);
        put32(&mut h, 8, 1);
        put32(&mut h, 20, 1);
        put32(&mut h, 24, self.minor);
        put32(&mut h, 32, 1);
        put32(&mut h, 36, root);
        put32(&mut h, 40, n as u32);
        put32(&mut h, 44, 1);
        seal(&mut h);
        h.extend_from_slice(&self.d);
        h
    }
}

/// Writes the header checksum.
pub fn seal(h: &mut [u8]) {
    let x = xor(h);
    put32(h, 508, match x { 0 => 1, u32::MAX => u32::MAX - 1, x => x });
}
pub fn xor(h: &[u8]) -> u32 {
    h[..508].chunks(4).fold(0, |a, c| a ^ u32::from_le_bytes(c.try_into().unwrap()))
}
