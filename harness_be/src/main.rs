//! The conformance recorder for machines there are none of here: it is run by Miri, which is a thousand times
//! slower than a machine, so that everything but the calls is left to the driver (vt.py).  It judges nothing.
//!
//! t2d-harness-be IN OUT
//! IN: for each call, little-endian words: length of the name, w, h, a, b, n, fill, length of the data;
//!     then the name and the data.
//! OUT: the word 0x01020304; for each call, words: outcome (0 ok, 1 err, 2 panic, 3 data written to), length of
//!     the text, nine words of information; then the text and the image.  Words in the order of the machine.
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use texture2ddecoder as t;

include!("../../harness/src/fns.rs");

fn raw(x: &[u32]) -> &[u8] {
    unsafe { std::slice::from_raw_parts(x.as_ptr() as *const u8, 4 * x.len()) }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let input = std::fs::read(&args[1]).expect("input");
    let mut out = std::fs::File::create(&args[2]).expect("output");
    std::panic::set_hook(Box::new(|_| {}));
    out.write_all(raw(&[0x0102_0304])).unwrap();
    let mut at = 0;
    while at < input.len() {
        let word = |i: usize| u32::from_le_bytes(input[at + 4 * i..at + 4 * i + 4].try_into().unwrap());
        let [f_len, w, h, a, b, n, fill, d_len] = [0, 1, 2, 3, 4, 5, 6, 7].map(|i| word(i) as usize);
        let f = std::str::from_utf8(&input[at + 32..at + 32 + f_len]).unwrap();
        let from = at + 32 + f_len;
        at = from + d_len;
        let data = input[from..at].to_vec();
        let mut img = vec![fill as u32; n];
        let mut info = [0; 9];
        let r = catch_unwind(AssertUnwindSafe(|| invoke(f, w, h, a, b, &data, &mut img, &mut info).expect("no such function")));
        let (r, e) = match r {
            Ok(Ok(())) => (0, String::new()),
            Ok(Err(e)) => (1, e.to_string()),
            Err(p) => (2, p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
        };
        let r = if data[..] != input[from..at] { 3 } else { r };
        let mut head = [r, e.len() as u32, 0, 0, 0, 0, 0, 0, 0, 0, 0];
        for (x, y) in head[2..].iter_mut().zip(info) {
            *x = y as u32;
        }
        out.write_all(raw(&head)).unwrap();
        out.write_all(e.as_bytes()).unwrap();
        out.write_all(raw(&img)).unwrap();
    }
}
