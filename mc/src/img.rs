//! Hive image builder.  Independent of nt-hive: writes the on-disk format byte by byte and
//! records where every structural field went, so that fault drivers can enumerate them.

pub const BASE: usize = 4096;
pub const SEG: usize = 16344;
pub const NONE: u32 = u32::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FK {
    CellSize,
    Sig,
    Count,
    Len,
    Ref,
    Flags,
    Type,
    Volatile,
    DataSize,
    /// A field the library does not interpret (hints, timestamps, parent, ...).
    Inert,
}

#[derive(Clone, Copy, Debug)]
pub struct Field {
    pub pos: usize,
    pub width: usize,
    pub kind: FK,
    pub name: &'static str,
}

/// An image plus the map of its structural fields.
#[derive(Clone)]
pub struct Img {
    pub bytes: Vec<u8>,
    pub fields: Vec<Field>,
    /// Offsets (relative to the data) of all cells, in allocation order.
    pub cells: Vec<(u32, u32)>,
    /// End of the used part of the image (absolute).
    pub used_end: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Nm {
    /// Latin-1 ("compressed") name.
    L(Vec<u8>),
    /// UTF-16 name.
    U(Vec<u16>),
    /// Raw bytes with the given compression flag.
    Raw(Vec<u8>, bool),
}

impl Nm {
    pub fn l(s: &str) -> Nm {
        Nm::L(s.chars().map(|c| c as u32 as u8).collect())
    }
    pub fn u(s: &str) -> Nm {
        Nm::U(s.encode_utf16().collect())
    }
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Nm::L(b) => b.clone(),
            Nm::U(u) => u.iter().flat_map(|x| x.to_le_bytes()).collect(),
            Nm::Raw(b, _) => b.clone(),
        }
    }
    pub fn comp(&self) -> bool {
        match self {
            Nm::L(_) => true,
            Nm::U(_) => false,
            Nm::Raw(_, c) => *c,
        }
    }
    pub fn units(&self) -> Vec<u16> {
        if self.comp() {
            self.bytes().iter().map(|b| *b as u16).collect()
        } else {
            self.bytes()
                .chunks_exact(2)
                .map(|c| u16::from_le_bytes([c[0], c[1]]))
                .collect()
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Lt {
    Lf,
    Lh,
    Li,
}
pub const LTS: [Lt; 3] = [Lt::Lf, Lt::Lh, Lt::Li];

impl Lt {
    pub fn sig(self) -> &'static [u8; 2] {
        match self {
            Lt::Lf => b"lf",
            Lt::Lh => b"lh",
            Lt::Li => b"li",
        }
    }
    pub fn item(self) -> usize {
        if self == Lt::Li {
            4
        } else {
            8
        }
    }
}

#[derive(Clone, Debug)]
pub enum Ent {
    K(Key),
    /// A raw offset relative to the data (dangling, shared, ...).
    Off(u32),
}

#[derive(Clone, Debug)]
pub enum SubList {
    Leaf(Lt, Vec<Ent>),
    /// A raw reference in place of a leaf.
    Off(u32),
}

#[derive(Clone, Debug)]
pub enum Subs {
    None,
    Leaf(Lt, Vec<Ent>),
    Root(Vec<SubList>),
    Off(u32),
}

#[derive(Clone, Debug)]
pub struct Key {
    pub name: Nm,
    pub flags: u16,
    pub class: Option<Vec<u8>>,
    pub subs: Subs,
    pub vals: Option<Vec<VEnt>>,
    pub volatile: u32,
    pub slack: usize,
}

impl Key {
    pub fn new(name: Nm) -> Key {
        Key {
            name,
            flags: 0,
            class: None,
            subs: Subs::None,
            vals: None,
            volatile: 0,
            slack: 0,
        }
    }
    pub fn l(s: &str) -> Key {
        Key::new(Nm::l(s))
    }
    pub fn subs(mut self, s: Subs) -> Key {
        self.subs = s;
        self
    }
    pub fn leaf(mut self, lt: Lt, k: Vec<Key>) -> Key {
        self.subs = Subs::Leaf(lt, k.into_iter().map(Ent::K).collect());
        self
    }
    pub fn vals(mut self, v: Vec<Val>) -> Key {
        self.vals = Some(v.into_iter().map(VEnt::V).collect());
        self
    }
    pub fn class(mut self, s: &str) -> Key {
        self.class = Some(s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect());
        self
    }
    pub fn vol(mut self, v: u32) -> Key {
        self.volatile = v;
        self
    }
}

#[derive(Clone, Debug)]
pub enum VEnt {
    V(Val),
    Off(u32),
}

#[derive(Clone, Debug)]
pub enum Dat {
    Inline(Vec<u8>),
    /// One cell with that many spare bytes.
    Cell(Vec<u8>, usize),
    /// Big data: segments of 16344 bytes; `surplus` extra segments; `slack` spare bytes per segment.
    Big {
        data: Vec<u8>,
        surplus: usize,
        slack: usize,
    },
    /// Size field and data offset as given.
    Raw(u32, u32),
}

#[derive(Clone, Debug)]
pub struct Val {
    pub name: Nm,
    pub flags: u16,
    pub ty: u32,
    pub data: Dat,
    pub slack: usize,
}

impl Val {
    pub fn new(name: Nm, ty: u32, data: Dat) -> Val {
        Val {
            name,
            flags: 0,
            ty,
            data,
            slack: 0,
        }
    }
}

pub struct B {
    pub buf: Vec<u8>,
    pub fields: Vec<Field>,
    pub cells: Vec<(u32, u32)>,
    pub record: bool,
}

pub fn upcase_ascii_latin(u: u16) -> u16 {
    crate::model::upcase(u)
}

impl Default for B {
    fn default() -> Self {
        Self::new()
    }
}

impl B {
    pub fn new() -> B {
        let mut b = B {
            buf: Vec::new(),
            fields: Vec::new(),
            cells: Vec::new(),
            record: true,
        };
        b.buf.extend_from_slice(b"hbin");
        b.buf.resize(32, 0);
        b
    }
    pub fn quiet() -> B {
        let mut b = B::new();
        b.record = false;
        b
    }

    pub fn f(&mut self, rel: usize, width: usize, kind: FK, name: &'static str) {
        if self.record {
            self.fields.push(Field {
                pos: rel + BASE,
                width,
                kind,
                name,
            });
        }
    }

    /// Allocates a cell with at least `payload` payload bytes (filler 0xCC); returns its offset.
    pub fn alloc(&mut self, payload: usize, name: &'static str) -> u32 {
        let size = (payload.max(4) + 4 + 7) / 8 * 8;
        let off = self.buf.len();
        self.buf
            .extend_from_slice(&(-(size as i64) as i32).to_le_bytes());
        self.buf.resize(off + size, 0xCC);
        self.f(off, 4, FK::CellSize, name);
        if self.record {
            self.cells.push((off as u32, size as u32));
        }
        off as u32
    }

    pub fn free_cell(&mut self, payload: usize) -> u32 {
        let size = (payload.max(4) + 4 + 7) / 8 * 8;
        let off = self.buf.len();
        self.buf.extend_from_slice(&(size as i32).to_le_bytes());
        self.buf.resize(off + size, 0xCC);
        off as u32
    }

    pub fn put(&mut self, at: usize, b: &[u8]) {
        self.buf[at..at + b.len()].copy_from_slice(b);
    }
    pub fn p16(&mut self, at: usize, v: u16) {
        self.put(at, &v.to_le_bytes());
    }
    pub fn p32(&mut self, at: usize, v: u32) {
        self.put(at, &v.to_le_bytes());
    }

    pub fn name_hint(nm: &Nm) -> [u8; 4] {
        let u = nm.units();
        let mut h = [0u8; 4];
        for (i, x) in u.iter().take(4).enumerate() {
            h[i] = if *x < 0x100 { *x as u8 } else { 0 };
        }
        h
    }
    pub fn name_hash(nm: &Nm) -> [u8; 4] {
        let mut h = 0u32;
        for u in nm.units() {
            h = h
                .wrapping_mul(37)
                .wrapping_add(upcase_ascii_latin(u) as u32);
        }
        h.to_le_bytes()
    }

    /// Writes a leaf list for already written keys.
    pub fn leaf(&mut self, lt: Lt, items: &[(u32, [u8; 4], [u8; 4])], slack: usize) -> u32 {
        let off = self.alloc(4 + items.len() * lt.item() + slack, "leaf.cell");
        let p = off as usize + 4;
        self.put(p, lt.sig());
        self.p16(p + 2, items.len() as u16);
        self.f(p, 2, FK::Sig, "leaf.sig");
        self.f(p + 2, 2, FK::Count, "leaf.count");
        for (i, (o, hint, hash)) in items.iter().enumerate() {
            let q = p + 4 + i * lt.item();
            self.p32(q, *o);
            self.f(q, 4, FK::Ref, "leaf.item");
            match lt {
                Lt::Lf => self.put(q + 4, hint),
                Lt::Lh => self.put(q + 4, hash),
                Lt::Li => {}
            }
            if lt != Lt::Li {
                self.f(q + 4, 4, FK::Inert, "leaf.hint");
            }
        }
        off
    }

    pub fn ri(&mut self, lists: &[u32], slack: usize) -> u32 {
        let off = self.alloc(4 + lists.len() * 4 + slack, "ri.cell");
        let p = off as usize + 4;
        self.put(p, b"ri");
        self.p16(p + 2, lists.len() as u16);
        self.f(p, 2, FK::Sig, "ri.sig");
        self.f(p + 2, 2, FK::Count, "ri.count");
        for (i, o) in lists.iter().enumerate() {
            self.p32(p + 4 + 4 * i, *o);
            self.f(p + 4 + 4 * i, 4, FK::Ref, "ri.item");
        }
        off
    }

    fn leaf_of(&mut self, lt: Lt, ents: &[Ent], parent: u32) -> u32 {
        let mut items = Vec::with_capacity(ents.len());
        for e in ents {
            match e {
                Ent::K(k) => {
                    let o = self.key(k, parent);
                    items.push((o, Self::name_hint(&k.name), Self::name_hash(&k.name)));
                }
                Ent::Off(o) => items.push((*o, *b"....", *b"....")),
            }
        }
        self.leaf(lt, &items, 0)
    }

    /// Writes a bare key record (no lists), returns its cell offset.
    pub fn nk(&mut self, k: &Key, parent: u32) -> u32 {
        let nb = k.name.bytes();
        let off = self.alloc(76 + nb.len() + k.slack, "nk.cell");
        let p = off as usize + 4;
        self.put(p, b"nk");
        let fl = k.flags | if k.name.comp() { 0x20 } else { 0 };
        self.p16(p + 2, fl);
        self.put(p + 4, &[0x11; 8]);
        self.p32(p + 12, 0x2222_2222);
        self.p32(p + 16, parent);
        self.p32(p + 20, 0);
        self.p32(p + 24, k.volatile);
        self.p32(p + 28, NONE);
        self.p32(p + 32, NONE);
        self.p32(p + 36, 0);
        self.p32(p + 40, NONE);
        self.p32(p + 44, NONE);
        self.p32(p + 48, NONE);
        for i in 0..5 {
            self.p32(p + 52 + 4 * i, 0x3333_3333);
        }
        self.p16(p + 72, nb.len() as u16);
        self.p16(p + 74, 0);
        self.put(p + 76, &nb);
        self.f(p, 2, FK::Sig, "nk.sig");
        self.f(p + 2, 2, FK::Flags, "nk.flags");
        self.f(p + 4, 4, FK::Inert, "nk.timestamp");
        self.f(p + 12, 4, FK::Inert, "nk.spare");
        self.f(p + 16, 4, FK::Inert, "nk.parent");
        self.f(p + 20, 4, FK::Inert, "nk.subkey_count");
        self.f(p + 24, 4, FK::Volatile, "nk.volatile_count");
        self.f(p + 28, 4, FK::Ref, "nk.subkeys_list");
        self.f(p + 32, 4, FK::Inert, "nk.volatile_list");
        self.f(p + 36, 4, FK::Count, "nk.value_count");
        self.f(p + 40, 4, FK::Ref, "nk.values_list");
        self.f(p + 44, 4, FK::Inert, "nk.security");
        self.f(p + 48, 4, FK::Ref, "nk.class");
        for (i, n) in ["nk.max_subkey_name", "nk.max_class", "nk.max_value_name", "nk.max_data", "nk.work_var"].into_iter().enumerate() {
            self.f(p + 52 + 4 * i, 4, FK::Inert, n);
        }
        self.f(p + 72, 2, FK::Len, "nk.name_len");
        self.f(p + 74, 2, FK::Len, "nk.class_len");
        off
    }

    pub fn set_subs(&mut self, key: u32, list: u32, n: u32) {
        let p = key as usize + 4;
        self.p32(p + 20, n);
        self.p32(p + 28, list);
    }

    pub fn set_vals(&mut self, key: u32, list: u32, n: u32) {
        let p = key as usize + 4;
        self.p32(p + 36, n);
        self.p32(p + 40, list);
    }

    pub fn key(&mut self, k: &Key, parent: u32) -> u32 {
        let off = self.nk(k, parent);
        let p = off as usize + 4;
        if let Some(c) = &k.class {
            let co = self.alloc(c.len(), "class.cell");
            self.put(co as usize + 4, c);
            self.p32(p + 48, co);
            self.p16(p + 74, c.len() as u16);
        }
        if let Some(v) = &k.vals {
            let mut offs = Vec::new();
            for e in v {
                offs.push(match e {
                    VEnt::V(v) => self.val(v),
                    VEnt::Off(o) => *o,
                });
            }
            let l = self.vlist(&offs, 0);
            self.set_vals(off, l, offs.len() as u32);
        }
        match &k.subs {
            Subs::None => {}
            Subs::Off(o) => self.set_subs(off, *o, 0),
            Subs::Leaf(lt, e) => {
                let l = self.leaf_of(*lt, e, off);
                self.set_subs(off, l, e.len() as u32);
            }
            Subs::Root(ls) => {
                let mut offs = Vec::new();
                let mut n = 0;
                for l in ls {
                    offs.push(match l {
                        SubList::Leaf(lt, e) => {
                            n += e.len() as u32;
                            self.leaf_of(*lt, e, off)
                        }
                        SubList::Off(o) => *o,
                    });
                }
                let l = self.ri(&offs, 0);
                self.set_subs(off, l, n);
            }
        }
        off
    }

    pub fn vlist(&mut self, offs: &[u32], slack: usize) -> u32 {
        let l = self.alloc(4 * offs.len() + slack, "vlist.cell");
        for (i, o) in offs.iter().enumerate() {
            self.p32(l as usize + 4 + 4 * i, *o);
            self.f(l as usize + 4 + 4 * i, 4, FK::Ref, "vlist.item");
        }
        l
    }

    pub fn val(&mut self, v: &Val) -> u32 {
        let nb = v.name.bytes();
        let off = self.alloc(20 + nb.len() + v.slack, "vk.cell");
        let p = off as usize + 4;
        self.put(p, b"vk");
        self.p16(p + 2, nb.len() as u16);
        self.p32(p + 12, v.ty);
        self.p16(p + 16, v.flags | if v.name.comp() { 1 } else { 0 });
        self.p16(p + 18, 0x4444);
        self.put(p + 20, &nb);
        self.f(p, 2, FK::Sig, "vk.sig");
        self.f(p + 2, 2, FK::Len, "vk.name_len");
        self.f(p + 4, 4, FK::DataSize, "vk.data_size");
        self.f(p + 8, 4, FK::Ref, "vk.data");
        self.f(p + 12, 4, FK::Type, "vk.type");
        self.f(p + 16, 2, FK::Flags, "vk.flags");
        self.f(p + 18, 2, FK::Inert, "vk.spare");
        let (sz, o) = self.dat(&v.data);
        self.p32(p + 4, sz);
        self.p32(p + 8, o);
        off
    }

    pub fn dat(&mut self, d: &Dat) -> (u32, u32) {
        match d {
            Dat::Inline(b) => {
                let mut x = [0xEEu8; 4];
                x[..b.len()].copy_from_slice(b);
                (b.len() as u32 | 0x8000_0000, u32::from_le_bytes(x))
            }
            Dat::Cell(b, slack) => {
                let o = self.alloc(b.len() + slack, "data.cell");
                self.put(o as usize + 4, b);
                (b.len() as u32, o)
            }
            Dat::Big {
                data,
                surplus,
                slack,
            } => {
                let mut segs = Vec::new();
                for c in data.chunks(SEG) {
                    let o = self.alloc(c.len() + slack, "seg.cell");
                    self.put(o as usize + 4, c);
                    segs.push(o);
                }
                for _ in 0..*surplus {
                    let o = self.alloc(16, "seg.cell");
                    segs.push(o);
                }
                let d = self.db(&segs, segs.len() as u16, 0);
                (data.len() as u32, d)
            }
            Dat::Raw(s, o) => (*s, *o),
        }
    }

    pub fn db(&mut self, segs: &[u32], count: u16, slack: usize) -> u32 {
        let l = self.alloc(4 * segs.len() + slack, "db.list.cell");
        for (i, o) in segs.iter().enumerate() {
            self.p32(l as usize + 4 + 4 * i, *o);
            self.f(l as usize + 4 + 4 * i, 4, FK::Ref, "db.item");
        }
        let d = self.alloc(8, "db.cell");
        let p = d as usize + 4;
        self.put(p, b"db");
        self.p16(p + 2, count);
        self.p32(p + 4, l);
        self.f(p, 2, FK::Sig, "db.sig");
        self.f(p + 2, 2, FK::Count, "db.count");
        self.f(p + 4, 4, FK::Ref, "db.list");
        d
    }

    /// Pads to the next 4096 bytes with a free cell and prepends the base block.
    pub fn finish(mut self, root: u32, minor: u32) -> Img {
        let used_end = self.buf.len() + BASE;
        let rest = (4096 - self.buf.len() % 4096) % 4096;
        if rest >= 8 {
            let o = self.buf.len();
            self.buf.extend_from_slice(&(rest as i32).to_le_bytes());
            self.buf.resize(o + rest, 0xCC);
        } else {
            let n = self.buf.len() + rest;
            self.buf.resize(n, 0xCC);
        }
        self.finish_exact(root, minor, used_end)
    }

    /// No padding: the last cell ends exactly at the end of the buffer.
    pub fn finish_tight(self, root: u32, minor: u32) -> Img {
        let e = self.buf.len() + BASE;
        self.finish_exact(root, minor, e)
    }

    fn finish_exact(self, root: u32, minor: u32, used_end: usize) -> Img {
        let n = self.buf.len();
        let mut bytes = header(root, minor, (n / 4096 * 4096) as u32);
        bytes.extend_from_slice(&self.buf);
        let mut fields = self.fields;
        if self.record {
            fields.push(Field {
                pos: 36,
                width: 4,
                kind: FK::Ref,
                name: "header.root",
            });
        }
        Img {
            bytes,
            fields,
            cells: self.cells,
            used_end,
        }
    }
}

pub fn header(root: u32, minor: u32, data_size: u32) -> Vec<u8> {
    let mut h = vec![0u8; 4096];
    h[0..4].copy_from_slice(b"regf");
    h[4..8].copy_from_slice(&7u32.to_le_bytes());
    h[8..12].copy_from_slice(&7u32.to_le_bytes());
    h[12..20].copy_from_slice(&0x01d6_8a3a_1234_5678u64.to_le_bytes());
    h[20..24].copy_from_slice(&1u32.to_le_bytes());
    h[24..28].copy_from_slice(&minor.to_le_bytes());
    h[28..32].copy_from_slice(&0u32.to_le_bytes());
    h[32..36].copy_from_slice(&1u32.to_le_bytes());
    h[36..40].copy_from_slice(&root.to_le_bytes());
    h[40..44].copy_from_slice(&data_size.to_le_bytes());
    h[44..48].copy_from_slice(&1u32.to_le_bytes());
    for (i, u) in "verif.hiv".encode_utf16().enumerate() {
        h[48 + 2 * i..50 + 2 * i].copy_from_slice(&u.to_le_bytes());
    }
    fix_checksum(&mut h);
    h
}

pub fn xor_sum(h: &[u8]) -> u32 {
    let mut x = 0u32;
    for c in h[..508].chunks_exact(4) {
        x ^= u32::from_le_bytes([c[0], c[1], c[2], c[3]]);
    }
    x
}

pub fn stored_sum(x: u32) -> u32 {
    match x {
        0 => 1,
        0xFFFF_FFFF => 0xFFFF_FFFE,
        x => x,
    }
}

pub fn fix_checksum(h: &mut [u8]) {
    let s = stored_sum(xor_sum(h));
    h[508..512].copy_from_slice(&s.to_le_bytes());
}

pub fn build(root: &Key, minor: u32) -> Img {
    let mut b = B::new();
    let o = b.key(root, 0x20);
    b.finish(o, minor)
}

pub fn build_tight(root: &Key, minor: u32) -> Img {
    let mut b = B::new();
    let o = b.key(root, 0x20);
    b.finish_tight(o, minor)
}

/// Data bytes with a recognisable, position dependent pattern.
pub fn pattern(n: usize, seed: u32) -> Vec<u8> {
    (0..n)
        .map(|i| {
            let x = (i as u32)
                .wrapping_mul(2654435761)
                .wrapping_add(seed.wrapping_mul(97));
            (x >> 13) as u8 ^ (i as u8)
        })
        .collect()
}
