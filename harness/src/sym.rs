//! Symbolic inputs, assumptions, assertions. In the symbolic build these are
//! intrinsics of the engine; in the native build they read a replay file.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn sym_bytes(p: *mut u8, n: usize, name: *const u8, nn: usize);
        fn sym_assume(c: bool);
        fn sym_assert(c: bool, m: *const u8, n: usize);
        fn sym_cover(m: *const u8, n: usize);
        fn sym_concretize(v: u64) -> u64;
        fn sym_observe(p: *const u8, n: usize);
        fn sym_param(k: u64) -> u64;
    }
    pub fn bytes(name: &str, out: &mut [u8]) {
        unsafe { sym_bytes(out.as_mut_ptr(), out.len(), name.as_ptr(), name.len()) }
    }
    pub fn assume(c: bool) {
        unsafe { sym_assume(c) }
    }
    pub fn check(c: bool, m: &str) {
        unsafe { sym_assert(c, m.as_ptr(), m.len()) }
    }
    pub fn cover(m: &str) {
        unsafe { sym_cover(m.as_ptr(), m.len()) }
    }
    pub fn concretize(v: u64) -> u64 {
        unsafe { sym_concretize(v) }
    }
    pub fn observe(b: &[u8]) {
        unsafe { sym_observe(b.as_ptr(), b.len()) }
    }
    pub fn param(k: u64) -> u64 {
        unsafe { sym_param(k) }
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    use std::collections::HashMap;
    #[derive(Default)]
    pub struct Ctx {
        pub inputs: HashMap<String, Vec<u8>>,
        pub seen: HashMap<String, usize>,
        pub params: HashMap<u64, u64>,
        pub obs: Vec<u8>,
    }
    thread_local! { pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::default()); }
    pub fn bytes(name: &str, out: &mut [u8]) {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            let k = c.seen.entry(name.into()).or_insert(0);
            let n = if *k == 0 { name.to_string() } else { format!("{}#{}", name, k) };
            *k += 1;
            let d = c.inputs.get(&n).cloned().unwrap_or_default();
            for (i, o) in out.iter_mut().enumerate() {
                *o = d.get(i).copied().unwrap_or(0);
            }
        })
    }
    fn end(code: i32) -> ! {
        CTX.with(|c| {
            let c = c.borrow();
            println!("OBS {}", c.obs.iter().map(|b| format!("{:02x}", b)).collect::<String>());
        });
        std::process::exit(code)
    }
    pub fn done() -> ! {
        end(0)
    }
    pub fn assume(c: bool) {
        if !c {
            println!("ASSUMPTION-FAILED");
            end(77)
        }
    }
    pub fn check(c: bool, m: &str) {
        if !c {
            println!("ASSERT-FAILED {}", m);
            end(1)
        }
    }
    pub fn cover(_: &str) {}
    pub fn concretize(v: u64) -> u64 {
        v
    }
    pub fn observe(b: &[u8]) {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            c.obs.extend((b.len() as u32).to_le_bytes());
            c.obs.extend_from_slice(b);
        })
    }
    pub fn param(k: u64) -> u64 {
        CTX.with(|c| c.borrow().params.get(&k).copied().unwrap_or(0))
    }
}

pub use imp::*;

pub fn u8(name: &str) -> u8 {
    let mut b = [0; 1];
    bytes(name, &mut b);
    b[0]
}
pub fn u16(name: &str) -> u16 {
    let mut b = [0; 2];
    bytes(name, &mut b);
    u16::from_le_bytes(b)
}
pub fn u32(name: &str) -> u32 {
    let mut b = [0; 4];
    bytes(name, &mut b);
    u32::from_le_bytes(b)
}
pub fn u64(name: &str) -> u64 {
    let mut b = [0; 8];
    bytes(name, &mut b);
    u64::from_le_bytes(b)
}
/// A value in 0..n (n <= 256), still symbolic.
pub fn below(name: &str, n: u64) -> u64 {
    let v = u8(name) as u64;
    assume(v < n);
    v
}
/// A value in 0..n, one path per value.
pub fn pick(name: &str, n: u64) -> u64 {
    concretize(below(name, n))
}
pub fn flag(name: &str) -> bool {
    pick(name, 2) == 1
}
pub fn vec(name: &str, n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    if n > 0 {
        bytes(name, &mut v);
    }
    v
}
