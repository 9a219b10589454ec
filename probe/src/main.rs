extern crate alloc;
mod digest;
mod proto;
use std::io::{BufReader, BufWriter, Read, Write};

struct S {
    r: BufReader<std::io::Stdin>,
    w: BufWriter<std::io::Stdout>,
}
impl proto::Io for S {
    fn read(&mut self, b: &mut [u8]) -> bool {
        self.r.read_exact(b).is_ok()
    }
    fn write(&mut self, b: &[u8]) {
        self.w.write_all(b).unwrap();
    }
    fn flush(&mut self) {
        self.w.flush().unwrap();
    }
    fn log(&mut self, what: &str, h: u64) {
        writeln!(self.w, "{what} {h:016x}").unwrap(); self.w.flush().unwrap();
    }
}
fn main() {
    let log = std::env::args().nth(1).as_deref() == Some("log");
    // as the main thread's stack may be of any size
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let mut s = S { r: BufReader::with_capacity(1 << 16, std::io::stdin()), w: BufWriter::new(std::io::stdout()) };
            proto::serve(&mut s, log);
            proto::Io::flush(&mut s);
        })
        .unwrap()
        .join()
        .unwrap();
}
