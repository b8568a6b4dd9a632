//! Conformance harness: runs public entry points of texture2ddecoder on the
//! vectors of an input file and records one JSON line per call (arguments,
//! outcome, whole output buffer).  It judges nothing: the TLA+ trace
//! specifications in /verif/spec do.
//!
//! input line:  id fn w h a b imglen fill hexdata      (hexdata may be "-")
//! usage: t2d-harness IN OUTPREFIX THREADS [LIMIT [ROUNDS]]
//!
//! Data and image slices end at the end of a mapped page with an inaccessible one behind
//! it, so that an access past their end is not survived, however it is made.
//! "m" is the most heap memory the call had in use, "k" what it did not give back, "st" how much stack.
//! With ROUNDS > 0 every thread makes every call that often, each thread in another order,
//! and records each distinct outcome it sees once.
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use texture2ddecoder as t;

include!("fns.rs");

/// Counts the memory a call has in use, and refuses to hand out more than MOST.
struct Counting;
const MOST: isize = 1 << 30;
thread_local! {
    static HELD: std::cell::Cell<Option<(isize, isize)>> = const { std::cell::Cell::new(None) };
}

impl Counting {
    /// A call takes (or gives back) so much: whether it may.
    fn take(n: isize) -> bool {
        HELD.try_with(|h| match h.get() {
            Some((now, _)) if n > 0 && now + n > MOST => false,
            Some((now, most)) => {
                h.set(Some((now + n, most.max(now + n))));
                true
            }
            None => true,
        })
        .unwrap_or(true)
    }
}

unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if Counting::take(l.size() as isize) { std::alloc::System.alloc(l) } else { std::ptr::null_mut() }
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if Counting::take(l.size() as isize) { std::alloc::System.alloc_zeroed(l) } else { std::ptr::null_mut() }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        Counting::take(-(l.size() as isize));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if Counting::take(n as isize - l.size() as isize) { std::alloc::System.realloc(p, l, n) } else { std::ptr::null_mut() }
    }
}

#[global_allocator]
static COUNTING: Counting = Counting;

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
    fn munmap(a: *mut u8, len: usize) -> i32;
}

/// Memory whose slices end where an inaccessible page begins.
struct Guarded {
    base: *mut u8,
    cap: usize,
}

impl Guarded {
    fn new(need: usize) -> Self {
        let cap = (need + 4095) / 4096 * 4096;
        unsafe {
            let base = mmap(std::ptr::null_mut(), cap + 4096, 3, 0x22, -1, 0);
            assert!(base as isize != -1);
            assert!(mprotect(base.add(cap), 4096, 0) == 0);
            Guarded { base, cap }
        }
    }
    fn reserve(&mut self, need: usize) {
        if need > self.cap {
            *self = Guarded::new(need * 2);
        }
    }
    fn bytes(&mut self, from: &[u8]) -> &'static [u8] {
        self.reserve(from.len());
        unsafe {
            let p = self.base.add(self.cap - from.len());
            std::ptr::copy_nonoverlapping(from.as_ptr(), p, from.len());
            std::slice::from_raw_parts(p, from.len())
        }
    }
    fn words(&mut self, n: usize, fill: u32) -> &'static mut [u32] {
        self.reserve(4 * n);
        unsafe {
            let s = std::slice::from_raw_parts_mut(self.base.add(self.cap - 4 * n) as *mut u32, n);
            s.fill(fill);
            s
        }
    }
}

impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe {
            munmap(self.base, self.cap + 4096);
        }
    }
}

struct Room {
    data: Guarded,
    img: Guarded,
}

struct Out {
    r: String,
    e: String,
    img: Vec<u32>,
    extra: String,
    most: isize,
    kept: isize,
    stack: usize,
}

/// The stack is painted below the frame of the caller before a call, and how deep the paint is gone afterwards is
/// how much of it the call has used, up to DEPTH bytes.
const DEPTH: usize = 192 << 10;
const NEAR: usize = 512;
const PAINT: u64 = 0xA5C3_1E97_5A3C_E178;

#[inline(never)]
fn paint() -> usize {
    let here = 0u64;
    let top = std::hint::black_box(&here) as *const u64 as usize & !7;
    for p in (top - DEPTH..top - NEAR).step_by(8) {
        unsafe { (p as *mut u64).write_volatile(PAINT) }
    }
    top
}

#[inline(never)]
fn depth(top: usize) -> usize {
    let mut p = top - DEPTH;
    while p < top - NEAR && unsafe { (p as *const u64).read_volatile() } == PAINT {
        p += 8;
    }
    top - p
}

fn call(f: &str, w: usize, h: usize, a: usize, b: usize, n: usize, fill: u32, bytes: &[u8], room: &mut Room) -> Out {
    let data = room.data.bytes(bytes);
    let img = room.img.words(n, fill);
    let mut info = [0; 9];
    let (mut held, mut stack) = ((0, 0), 0);
    let top = paint();
    let res = catch_unwind(AssertUnwindSafe(|| -> R {
        HELD.set(Some((0, 0)));
        let r = invoke(f, w, h, a, b, data, img, &mut info).unwrap_or_else(|| tool_error(f));
        held = HELD.take().unwrap();
        stack = depth(top);
        r
    }));
    HELD.set(None);
    let (kept, most) = held;
    let extra = if f == "info" {
        format!(
            ",\"ok\":{},\"iw\":{},\"ih\":{},\"lv\":{},\"fc\":{},\"bpb\":{},\"u0\":{},\"u1\":{},\"fmt\":{}",
            info[0], info[1], info[2], info[3], info[4], info[5], info[6], info[7], info[8]
        )
    } else {
        String::new()
    };
    let (r, e) = match res {
        Ok(Ok(())) => ("ok".to_string(), String::new()),
        Ok(Err(e)) => ("err".to_string(), e.to_string()),
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            ("panic".to_string(), m)
        }
    };
    if data != bytes {
        return Out { r: "corrupted".to_string(), e: "the data was written to".to_string(), img: img.to_vec(), extra, most, kept, stack };
    }
    Out { r, e, img: img.to_vec(), extra, most, kept, stack }
}

/// Sizes beyond the integers of TLC, and beyond any data, are all alike.
fn sat(x: usize) -> usize {
    x.min(1 << 30)
}

fn tool_error(f: &str) -> ! {
    eprintln!("unknown function {f}");
    std::process::exit(2)
}

fn esc(s: &str) -> String {
    s.chars()
        .map(|c| if c == '"' || c == '\\' || (c as u32) < 32 { '_' } else { c })
        .collect()
}

struct Call {
    i: String,
    f: String,
    w: usize,
    h: usize,
    a: usize,
    b: usize,
    n: usize,
    fill: u32,
    d: Vec<u8>,
}

impl Call {
    fn parse(line: &str) -> Call {
        let v: Vec<&str> = line.split(' ').collect();
        let p = |j: usize| v[j].parse::<usize>().unwrap();
        let d = if v[8] == "-" {
            vec![]
        } else {
            (0..v[8].len() / 2)
                .map(|j| u8::from_str_radix(&v[8][2 * j..2 * j + 2], 16).unwrap())
                .collect()
        };
        Call {
            i: v[0].to_string(),
            f: v[1].to_string(),
            w: p(2),
            h: p(3),
            a: p(4),
            b: p(5),
            n: p(6),
            fill: v[7].parse().unwrap(),
            d,
        }
    }
}

/// All calls, `rounds` times, in an order of the thread's own.
fn order(n: usize, rounds: usize, k: u64) -> Vec<usize> {
    let mut x = k.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03;
    let mut next = || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        x
    };
    let mut out = vec![];
    for _ in 0..rounds {
        let mut o: Vec<usize> = (0..n).collect();
        for j in (1..n).rev() {
            o.swap(j, (next() % (j as u64 + 1)) as usize);
        }
        out.extend(o);
    }
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&args[1]).expect("input");
    let threads: usize = args[3].parse().unwrap();
    let limit: u64 = args.get(4).map(|s| s.parse().unwrap()).unwrap_or(20);
    std::panic::set_hook(Box::new(|_| {}));
    let rounds: usize = args.get(5).map(|s| s.parse().unwrap()).unwrap_or(0);
    let calls: Arc<Vec<Call>> = Arc::new(text.lines().map(Call::parse).collect());
    let n = calls.len();
    let t0 = Instant::now();
    let busy: Arc<Vec<AtomicU64>> = Arc::new((0..threads).map(|_| AtomicU64::new(0)).collect());
    let mut hs = vec![];
    for k in 0..threads {
        let calls = calls.clone();
        let busy = busy.clone();
        let path = format!("{}.{}", args[2], k);
        hs.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let mut o = BufWriter::with_capacity(1 << 16, File::create(path).unwrap());
                    let mut s = String::new();
                    // interleaved assignment: neighbouring vectors run on different threads
                    let mut room = Room { data: Guarded::new(1 << 16), img: Guarded::new(1 << 18) };
                    let mut seen: Vec<Vec<u64>> = vec![vec![]; if rounds > 0 { n } else { 0 }];
                    let mine: Vec<usize> = if rounds == 0 {
                        (k..n).step_by(threads).collect()
                    } else {
                        order(n, rounds, k as u64)
                    };
                    for i in mine {
                        let v = &calls[i];
                        busy[k].store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                        o.flush().unwrap();
                        let r = call(&v.f, v.w, v.h, v.a, v.b, v.n, v.fill, &v.d, &mut room);
                        busy[k].store(0, Ordering::SeqCst);
                        if rounds > 0 {
                            use std::hash::{Hash, Hasher};
                            let mut hs = std::collections::hash_map::DefaultHasher::new();
                            (&r.r, &r.e, &r.extra, &r.img).hash(&mut hs);
                            let x = hs.finish();
                            if seen[i].contains(&x) {
                                continue;
                            }
                            seen[i].push(x);
                        }
                        s.clear();
                        use std::fmt::Write as _;
                        write!(
                            s,
                            "{{\"i\":{},\"f\":\"{}\",\"w\":{},\"h\":{},\"a\":{},\"b\":{},\"n\":{},\"o\":{},\"r\":\"{}\",\"e\":\"{}\"{},\"m\":{},\"k\":{},\"st\":{},\"d\":[",
                            v.i, v.f, sat(v.w), sat(v.h), sat(v.a), v.b.min(0x7FFF_FFFF), v.n, v.fill as i32, r.r, esc(&r.e), r.extra, r.most, r.kept, r.stack
                        )
                        .unwrap();
                        for (j, x) in v.d.iter().enumerate() {
                            if j > 0 {
                                s.push(',');
                            }
                            write!(s, "{x}").unwrap();
                        }
                        s.push_str("],\"p\":[");
                        for (j, x) in r.img.iter().enumerate() {
                            if j > 0 {
                                s.push(',');
                            }
                            write!(s, "{}", *x as i32).unwrap();
                        }
                        s.push_str("]}\n");
                        o.write_all(s.as_bytes()).unwrap();
                    }
                    o.flush().unwrap();
                })
                .unwrap(),
        );
    }
    // watchdog: a call that does not return is an observation, not a tool error
    let done = Arc::new(AtomicU64::new(0));
    {
        let done = done.clone();
        let busy = busy.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            if done.load(Ordering::SeqCst) == 1 {
                return;
            }
            let now = t0.elapsed().as_millis() as u64;
            for b in busy.iter() {
                let s = b.load(Ordering::SeqCst);
                if s != 0 && now > s + limit * 1000 {
                    std::process::exit(75);
                }
            }
        });
    }
    for h in hs {
        if h.join().is_err() {
            std::process::exit(2);
        }
    }
    done.store(1, Ordering::SeqCst);
}
