// The probe as a freestanding 32-bit Linux program (core and alloc only, no C library).
#![cfg_attr(target_arch = "x86", no_std)]
#![cfg_attr(target_arch = "x86", no_main)]
extern crate alloc;
#[cfg(target_arch = "x86")]
mod digest;
#[cfg(target_arch = "x86")]
mod proto;

#[cfg(not(target_arch = "x86"))]
fn main() {}

#[cfg(target_arch = "x86")]
mod sys {
    use core::alloc::{GlobalAlloc, Layout};
    use core::arch::asm;

    pub unsafe fn sc3(n: u32, a: u32, b: u32, c: u32) -> i32 {
        let r: i32;
        asm!("xchg edi, ebx", "int 0x80", "xchg edi, ebx",
             inlateout("eax") n as i32 => r, inout("edi") a => _, in("ecx") b, in("edx") c);
        r
    }
    pub fn exit(c: u32) -> ! {
        unsafe {
            sc3(252, c, 0, 0);
        }
        loop {}
    }

    // Free lists by power of two on top of brk.
    pub struct A;
    static mut FREE: [*mut u8; 32] = [core::ptr::null_mut(); 32];
    static mut CUR: usize = 0;
    static mut END: usize = 0;
    fn class(l: Layout) -> usize {
        (l.size().max(l.align()).max(16)).next_power_of_two().trailing_zeros() as usize
    }
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let c = class(l);
            let p = FREE[c];
            if !p.is_null() {
                FREE[c] = *(p as *mut *mut u8);
                return p;
            }
            let n = 1usize << c;
            if CUR == 0 {
                CUR = sc3(45, 0, 0, 0) as u32 as usize;
                END = CUR;
            }
            let a = (CUR + n.min(4096) - 1) & !(n.min(4096) - 1);
            if a + n > END {
                let want = a + n.max(1 << 20);
                let got = sc3(45, want as u32, 0, 0) as u32 as usize;
                if got < want {
                    return core::ptr::null_mut();
                }
                END = got;
            }
            CUR = a + n;
            a as *mut u8
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            let c = class(l);
            *(p as *mut *mut u8) = FREE[c];
            FREE[c] = p;
        }
    }
    #[global_allocator]
    static G: A = A;

    pub struct S {
        pub rb: [u8; 65536],
        pub rp: usize,
        pub rn: usize,
        pub wb: [u8; 4096],
        pub wn: usize,
        pub mapped: i32,
    }
    const HALF: usize = 1 << 20;
    impl S {
        fn out(&mut self) {
            let mut o = 0;
            while o < self.wn {
                let r = unsafe { sc3(4, 1, self.wb.as_ptr() as u32 + o as u32, (self.wn - o) as u32) };
                if r <= 0 {
                    exit(9);
                }
                o += r as usize;
            }
            self.wn = 0;
        }
    }
    impl crate::proto::Io for S {
        fn read(&mut self, b: &mut [u8]) -> bool {
            let mut o = 0;
            while o < b.len() {
                if self.rp == self.rn {
                    let r = unsafe { sc3(3, 0, self.rb.as_ptr() as u32, self.rb.len() as u32) };
                    if r <= 0 {
                        return false;
                    }
                    self.rp = 0;
                    self.rn = r as usize;
                }
                let k = (b.len() - o).min(self.rn - self.rp);
                b[o..o + k].copy_from_slice(&self.rb[self.rp..self.rp + k]);
                self.rp += k;
                o += k;
            }
            true
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                if self.wn == self.wb.len() {
                    self.out();
                }
                self.wb[self.wn] = *x;
                self.wn += 1;
            }
        }
        fn flush(&mut self) {
            self.out();
        }
        fn middle(&mut self, room: usize) -> Option<usize> {
            let m = 0x8000_0000usize;
            if self.mapped == 0 {
                // PROT_READ | PROT_WRITE; MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE
                let a: [u32; 6] = [(m - HALF) as u32, 2 * HALF as u32, 3, 0x2 | 0x20 | 0x10_0000, !0, 0];
                let r = unsafe { sc3(90, a.as_ptr() as u32, 0, 0) };
                self.mapped = if r as u32 as usize == m - HALF { 1 } else { -1 };
            }
            (self.mapped == 1 && room <= HALF).then_some(m)
        }
        fn log(&mut self, what: &str, h: u64) {
            self.write(what.as_bytes());
            self.write(b" ");
            for i in (0..16).rev() {
                let d = (h >> (4 * i) & 15) as u8;
                self.write(&[if d < 10 { b'0' + d } else { b'a' + d - 10 }]);
            }
            self.write(b"\n");
        }
    }

    pub struct Err;
    impl core::fmt::Write for Err {
        fn write_str(&mut self, s: &str) -> core::fmt::Result {
            unsafe {
                sc3(4, 2, s.as_ptr() as u32, s.len() as u32);
            }
            Ok(())
        }
    }
    #[panic_handler]
    fn panic(i: &core::panic::PanicInfo) -> ! {
        use core::fmt::Write;
        let _ = writeln!(Err, "{i}");
        exit(101)
    }

    static mut IO: S = S { rb: [0; 65536], rp: 0, rn: 0, wb: [0; 4096], wn: 0, mapped: 0 };

    #[no_mangle]
    pub extern "C" fn start(sp: *const u32) -> ! {
        unsafe {
            let argc = *sp;
            let log = argc > 1 && {
                let a = *sp.add(2) as *const u8;
                *a == b'l'
            };
            let io = &mut *core::ptr::addr_of_mut!(IO);
            crate::proto::serve(io, log);
            io.out();
        }
        exit(0)
    }
    core::arch::global_asm!(
        ".globl _start",
        "_start:",
        "mov eax, esp",
        "and esp, -16",
        "sub esp, 12",
        "push eax",
        "call start",
    );
}
