//! Symbolic primitives.  Under the symbolic executor these are intrinsics; with `--features
//! native` they read the values of one counterexample (or sample) from a file instead.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod raw {
    extern "C" {
        pub fn sx_any(ptr: *mut u8, len: usize, id: u32);
        pub fn sx_u8(id: u32) -> u8;
        pub fn sx_u16(id: u32) -> u16;
        pub fn sx_u32(id: u32) -> u32;
        pub fn sx_u64(id: u32) -> u64;
        pub fn sx_assume(c: bool);
        pub fn sx_assert(c: bool, id: u32);
        pub fn sx_cover(id: u32);
        pub fn sx_observe(id: u32, ptr: *const u8, len: usize);
        pub fn sx_trace(v: u64);
        pub fn sx_trace_reset();
        pub fn sx_concretize(v: u64) -> u64;
        pub fn sx_panic_ok(v: bool);
        pub fn sx_nomerge(v: bool);
        pub fn sx_heap_bytes() -> u64;
        pub fn sx_is_native() -> bool;
        pub fn sx_stop() -> !;
    }
}

#[cfg(feature = "native")]
mod raw {
    use std::cell::RefCell;
    use std::collections::HashMap;
    thread_local! {
        static IN: RefCell<HashMap<(u32, u32), Vec<u8>>> = RefCell::new(HashMap::new());
        static OCC: RefCell<HashMap<u32, u32>> = RefCell::new(HashMap::new());
        static FAILED: RefCell<Vec<u32>> = RefCell::new(Vec::new());
        static PANIC_OK: RefCell<bool> = RefCell::new(false);
    }
    pub fn load(path: &str) {
        let text = std::fs::read_to_string(path).unwrap();
        IN.with(|m| {
            for line in text.lines() {
                let f: Vec<&str> = line.split_whitespace().collect();
                if f.len() < 2 {
                    continue;
                }
                let hex = f.get(2).copied().unwrap_or("");
                let bytes = (0..hex.len() / 2)
                    .map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap())
                    .collect();
                m.borrow_mut().insert((f[0].parse().unwrap(), f[1].parse().unwrap()), bytes);
            }
        });
        std::panic::set_hook(Box::new(|info| {
            let ok = PANIC_OK.with(|p| *p.borrow());
            println!("PANIC ok={} {}", ok, info.to_string().replace('\n', " "));
            std::process::exit(if ok { 0 } else { 102 });
        }));
    }
    pub fn finish() -> ! {
        println!("DONE");
        std::process::exit(0)
    }
    pub unsafe fn sx_any(ptr: *mut u8, len: usize, id: u32) {
        let occ = OCC.with(|o| {
            let mut o = o.borrow_mut();
            let c = o.entry(id).or_insert(0);
            let r = *c;
            *c += 1;
            r
        });
        IN.with(|m| {
            let m = m.borrow();
            let out = std::slice::from_raw_parts_mut(ptr, len);
            out.fill(0);
            if let Some(b) = m.get(&(id, occ)) {
                let n = b.len().min(len);
                out[..n].copy_from_slice(&b[..n]);
            }
        })
    }
    pub unsafe fn sx_u8(id: u32) -> u8 {
        let mut b = [0u8; 1];
        sx_any(b.as_mut_ptr(), 1, id);
        b[0]
    }
    pub unsafe fn sx_u16(id: u32) -> u16 {
        let mut b = [0u8; 2];
        sx_any(b.as_mut_ptr(), 2, id);
        u16::from_le_bytes(b)
    }
    pub unsafe fn sx_u32(id: u32) -> u32 {
        let mut b = [0u8; 4];
        sx_any(b.as_mut_ptr(), 4, id);
        u32::from_le_bytes(b)
    }
    pub unsafe fn sx_u64(id: u32) -> u64 {
        let mut b = [0u8; 8];
        sx_any(b.as_mut_ptr(), 8, id);
        u64::from_le_bytes(b)
    }
    #[no_mangle]
    pub extern "C" fn sx_assume(c: bool) {
        if !c {
            println!("ASSUME-UNMET");
            std::process::exit(77)
        }
    }
    #[no_mangle]
    pub extern "C" fn sx_assert(c: bool, id: u32) {
        if !c {
            println!("ASSERT-FAIL {}", id);
            std::process::exit(101)
        }
    }
    pub unsafe fn sx_cover(id: u32) {
        println!("COVER {}", id)
    }
    pub unsafe fn sx_observe(id: u32, ptr: *const u8, len: usize) {
        let s: String =
            std::slice::from_raw_parts(ptr, len).iter().map(|b| format!("{:02x}", b)).collect();
        println!("OBS {} {}", id, s)
    }
    #[no_mangle]
    pub extern "C" fn sx_trace(_: u64) {}
    pub unsafe fn sx_trace_reset() {}
    pub unsafe fn sx_concretize(v: u64) -> u64 {
        v
    }
    pub unsafe fn sx_panic_ok(v: bool) {
        PANIC_OK.with(|p| *p.borrow_mut() = v)
    }
    pub unsafe fn sx_nomerge(_: bool) {}
    pub unsafe fn sx_heap_bytes() -> u64 {
        0
    }
    pub unsafe fn sx_is_native() -> bool {
        true
    }
    pub unsafe fn sx_stop() -> ! {
        finish()
    }
}

#[cfg(feature = "native")]
pub use raw::{finish, load};

macro_rules! wrap {
    ($($pub:ident = $raw:ident ( $($a:ident : $t:ty),* ) $(-> $r:ty)?;)*) => {
        $(#[inline(always)] pub fn $pub($($a: $t),*) $(-> $r)? { unsafe { raw::$raw($($a),*) } })*
    };
}
wrap! {
    any_u8 = sx_u8(id: u32) -> u8;
    any_u16 = sx_u16(id: u32) -> u16;
    any_u32 = sx_u32(id: u32) -> u32;
    any_u64 = sx_u64(id: u32) -> u64;
    assume = sx_assume(c: bool);
    assert = sx_assert(c: bool, id: u32);
    cover = sx_cover(id: u32);
    trace = sx_trace(v: u64);
    trace_reset = sx_trace_reset();
    concretize = sx_concretize(v: u64) -> u64;
    panic_ok = sx_panic_ok(v: bool);
    nomerge = sx_nomerge(v: bool);
    heap_bytes = sx_heap_bytes() -> u64;
    is_native = sx_is_native() -> bool;
    stop = sx_stop() -> !;
}
#[inline(always)]
pub fn any<const N: usize>(id: u32) -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { raw::sx_any(b.as_mut_ptr(), N, id) };
    b
}
#[inline(always)]
pub fn fill(b: &mut [u8], id: u32) {
    unsafe { raw::sx_any(b.as_mut_ptr(), b.len(), id) };
}
#[inline(always)]
pub fn observe(id: u32, b: &[u8]) {
    unsafe { raw::sx_observe(id, b.as_ptr(), b.len()) };
}

/// One path per value of `v`, never joined again
pub fn split(v: u64) -> u64 {
    let c = concretize(v);
    trace(c);
    c
}

#[no_mangle]
pub extern "C" fn sx_split(v: u64) -> u64 {
    split(v)
}
/// How many operations the havoc decoder performs before its data ends
pub static OPS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(u32::MAX);
#[no_mangle]
pub extern "C" fn sx_ghost_faults() -> bool {
    let n = OPS.load(std::sync::atomic::Ordering::Relaxed);
    if n == 0 {
        return true;
    }
    OPS.store(n - 1, std::sync::atomic::Ordering::Relaxed);
    false
}
/// The havoc decoder returns one of these (on separate paths), if any
pub static PICK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
#[no_mangle]
pub extern "C" fn sx_ghost_pick(v: u32) -> u32 {
    if !PICK.load(std::sync::atomic::Ordering::Relaxed) {
        return v;
    }
    assume(v < 5);
    [0, 1, 24, 47, u32::MAX - 7][split(v as u64) as usize]
}
pub fn pick_few() {
    PICK.store(true, std::sync::atomic::Ordering::Relaxed)
}
pub fn ops(n: u32) {
    OPS.store(n, std::sync::atomic::Ordering::Relaxed)
}
/// Ghost models with at most this many symbols split paths on the symbol
pub static TRACE_LIMIT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
#[no_mangle]
pub extern "C" fn sx_ghost_trace_limit() -> u32 {
    TRACE_LIMIT.load(std::sync::atomic::Ordering::Relaxed)
}
pub fn trace_limit(n: u32) {
    TRACE_LIMIT.store(n, std::sync::atomic::Ordering::Relaxed)
}
#[cfg(feature = "native")]
mod ghost_syms {
    #[no_mangle]
    pub extern "C" fn sx_mix(h: u64, v: u64) -> u64 {
        h.wrapping_mul(31).wrapping_add(v)
    }
    #[no_mangle]
    pub unsafe extern "C" fn sx_u32(id: u32) -> u32 {
        super::any_u32(id)
    }
    #[no_mangle]
    pub unsafe extern "C" fn sx_u8(id: u32) -> u8 {
        super::any_u8(id)
    }
}

/// Declares harness entry points: `h_<name>` for the symbolic executor, and a table for replays.
#[macro_export]
macro_rules! harness {
    ($(fn $name:ident = $body:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { $body })*
        pub const TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name)),*];
    };
}
