//! without the standard library and, unless there is `alloc`, without an allocator
#![no_std]
#![no_main]
#![allow(warnings)]
#[path = "../../items.rs"]
mod items;

#[link(name = "c")]
extern "C" {
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(code: i32) -> !;
    #[cfg(feature = "alloc")]
    fn aligned_alloc(align: usize, n: usize) -> *mut u8;
    #[cfg(feature = "alloc")]
    fn free(p: *mut u8);
    fn atoi(p: *const u8) -> i32;
}
#[link(name = "gcc_s")]
extern "C" {}

struct Stdout;
impl core::fmt::Write for Stdout {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let mut b = s.as_bytes();
        while !b.is_empty() {
            let n = unsafe { write(1, b.as_ptr(), b.len()) };
            if n <= 0 {
                return Err(core::fmt::Error);
            }
            b = &b[n as usize..];
        }
        Ok(())
    }
}

#[cfg(feature = "alloc")]
mod allocator {
    use core::alloc::{GlobalAlloc, Layout};
    struct C;
    unsafe impl GlobalAlloc for C {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let a = l.align().max(16);
            super::aligned_alloc(a, (l.size() + a - 1) / a * a)
        }
        unsafe fn dealloc(&self, p: *mut u8, _: Layout) {
            super::free(p)
        }
    }
    #[global_allocator]
    static A: C = C;
}

#[panic_handler]
fn panic(i: &core::panic::PanicInfo<'_>) -> ! {
    use core::fmt::Write as _;
    let _ = core::writeln!(Stdout, "panic\t{i}");
    unsafe { _exit(101) }
}
#[no_mangle]
extern "C" fn rust_eh_personality() {}

struct Lines([u8; 65536], usize);
impl Lines {
    fn flush(&mut self) -> core::fmt::Result {
        let n = core::mem::take(&mut self.1);
        core::fmt::Write::write_str(&mut Stdout, core::str::from_utf8(&self.0[..n]).unwrap())
    }
}
impl core::fmt::Write for Lines {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        if self.1 + s.len() > self.0.len() {
            self.flush()?;
        }
        if s.len() > self.0.len() {
            return Stdout.write_str(s);
        }
        self.0[self.1..self.1 + s.len()].copy_from_slice(s.as_bytes());
        self.1 += s.len();
        Ok(())
    }
}

#[no_mangle]
extern "C" fn main(argc: i32, argv: *const *const u8) -> i32 {
    use core::fmt::Write as _;
    let arg = |i: usize| if argc > i as i32 { unsafe { atoi(*argv.add(i)) as u64 } } else { 12 };
    let mut out = Lines([0; 65536], 0);
    let n = items::run(&mut out, arg(1), arg(2));
    let _ = core::writeln!(out, "end\t{n}");
    let _ = out.flush();
    0
}
