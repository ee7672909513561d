//! Runs one harness natively on concrete inputs.
//! usage: replay HARNESS INPUTFILE [k=v ...]
use std::alloc::{GlobalAlloc, Layout, System};

/// Ends the run on an allocation out of proportion to its small input.
struct Limited;

const LIMIT: usize = 1 << 26;

unsafe impl GlobalAlloc for Limited {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > LIMIT {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static A: Limited = Limited;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[2]).unwrap();
    harness::sym::CTX.with(|c| {
        let mut c = c.borrow_mut();
        for l in text.lines() {
            let mut p = l.split_whitespace();
            let n = match p.next() {
                Some(n) if !n.starts_with('#') => n,
                _ => continue,
            };
            let h = p.next().unwrap_or("");
            let b = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            c.inputs.insert(n.to_string(), b);
        }
        for p in &a[3..] {
            let (k, v) = p.split_once('=').unwrap();
            c.params.insert(k.parse().unwrap(), v.parse().unwrap());
        }
    });
    let f = harness::TABLE.iter().find(|t| t.0 == a[1]).expect("no such harness").1;
    f();
    harness::sym::done()
}
