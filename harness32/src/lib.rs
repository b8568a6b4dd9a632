//! The conformance harness for a 32-bit target (wasm32): run.mjs, under Node, puts the
//! arguments of a call into the memory of this module, makes the call and records it.
//! It judges nothing: the TLA+ trace specifications in /verif/spec do.
#![no_std]
use core::alloc::{GlobalAlloc, Layout};
use core::fmt::Write;
use core::panic::PanicInfo;
use core::ptr::addr_of_mut;
use texture2ddecoder as t;

include!("../../harness/src/fns.rs");

/// Memory is handed out from one end to the other, and all of it taken back before each call.
struct Bump;
static mut NEXT: usize = 0;
static mut LAST: usize = 0;
extern "C" {
    static __heap_base: u8;
}

unsafe impl GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = (NEXT + l.align() - 1) / l.align() * l.align();
        let end = match p.checked_add(l.size()) {
            Some(e) if e < isize::MAX as usize => e,
            _ => return core::ptr::null_mut(),
        };
        let have = core::arch::wasm32::memory_size(0) * 65536;
        if end > have && core::arch::wasm32::memory_grow(0, (end - have).div_ceil(65536)) == usize::MAX {
            return core::ptr::null_mut();
        }
        LAST = p;
        NEXT = end;
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, _: Layout) {
        if p as usize == LAST {
            NEXT = LAST;
        }
    }
}

#[global_allocator]
static HEAP: Bump = Bump;

struct Text {
    n: usize,
    s: [u8; 400],
}
static mut TEXT: Text = Text { n: 0, s: [0; 400] };

impl Write for Text {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for &b in s.as_bytes() {
            if self.n < self.s.len() {
                self.s[self.n] = b;
                self.n += 1;
            }
        }
        Ok(())
    }
}

#[panic_handler]
fn panic(i: &PanicInfo) -> ! {
    unsafe {
        let t = &mut *addr_of_mut!(TEXT);
        t.n = 0;
        let _ = write!(t, "{i}");
    }
    core::arch::wasm32::unreachable()
}

/// Address and length of the last error text.
#[no_mangle]
pub extern "C" fn text() -> *const u8 {
    unsafe { (*addr_of_mut!(TEXT)).s.as_ptr() }
}
#[no_mangle]
pub extern "C" fn text_len() -> usize {
    unsafe { (*addr_of_mut!(TEXT)).n }
}

#[no_mangle]
pub extern "C" fn reset() {
    unsafe {
        NEXT = &__heap_base as *const u8 as usize;
        LAST = 0;
        (*addr_of_mut!(TEXT)).n = 0;
    }
}

#[no_mangle]
pub extern "C" fn room(n: usize) -> *mut u8 {
    unsafe { HEAP.alloc(Layout::from_size_align(n, 16).unwrap()) }
}

static mut INFO: [i32; 9] = [0; 9];
#[no_mangle]
pub extern "C" fn info() -> *const i32 {
    addr_of_mut!(INFO) as *const i32
}

/// 0: Ok, 1: Err (text), 2: no such function
#[no_mangle]
pub unsafe extern "C" fn call(
    f: *const u8, f_len: usize, w: usize, h: usize, a: usize, b: usize, d: *const u8, d_len: usize, p: *mut u32, n: usize,
) -> u32 {
    let f = core::str::from_utf8(core::slice::from_raw_parts(f, f_len)).unwrap();
    let data = core::slice::from_raw_parts(d, d_len);
    let img = core::slice::from_raw_parts_mut(p, n);
    let r = match invoke(f, w, h, a, b, data, img, &mut *addr_of_mut!(INFO)) {
        Some(r) => r,
        None => return 2,
    };
    match r {
        Ok(()) => 0,
        Err(e) => {
            let _ = (*addr_of_mut!(TEXT)).write_str(e);
            1
        }
    }
}
