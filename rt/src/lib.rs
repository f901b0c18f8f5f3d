//! Interface between harnesses and the symbolic engine.
//! Without feature "native" the intrinsics are external symbols given meaning by the engine;
//! with it they read one concrete assignment from $KSYM_INPUT (replay against the real code).
use std::path::{Path, PathBuf};

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn ksym_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize);
        pub fn ksym_assume(c: bool);
        pub fn ksym_assert(c: bool, id: *const u8, n: usize);
        pub fn ksym_cover(k: u32);
        pub fn ksym_observe(name: *const u8, nl: usize, p: *const u8, n: usize);
        pub fn ksym_concrete(v: u64) -> u64;
        pub fn ksym_param(i: u32) -> u64;
        pub fn ksym_hash(dom: u32, p: *const u8, n: usize, out: *mut u8, m: usize);
        pub fn ksym_file_put(path: *const u8, pl: usize, p: *const u8, n: usize);
        pub fn ksym_clock(sec: u64);
        pub fn ksym_fault(op: u32, nth: u32, kind: u32);
        pub fn ksym_fault_hit() -> bool;
        pub fn ksym_file_len(path: *const u8, pl: usize) -> i64;
        pub fn ksym_file_get(path: *const u8, pl: usize, out: *mut u8, n: usize);
    }
    pub fn fill(b: &mut [u8], name: &str) { if !b.is_empty() { unsafe { ksym_bytes(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) } } }
    pub fn assume(c: bool) { unsafe { ksym_assume(c) } }
    pub fn check(c: bool, id: &str) { unsafe { ksym_assert(c, id.as_ptr(), id.len()) } }
    pub fn cover(k: u32) { unsafe { ksym_cover(k) } }
    pub fn observe(name: &str, v: &[u8]) { unsafe { ksym_observe(name.as_ptr(), name.len(), v.as_ptr(), v.len()) } }
    pub fn concrete(v: u64) -> u64 { unsafe { ksym_concrete(v) } }
    pub fn param(i: u32) -> u64 { unsafe { ksym_param(i) } }
    pub fn hash(dom: u32, v: &[u8], out: &mut [u8]) { unsafe { ksym_hash(dom, v.as_ptr(), v.len(), out.as_mut_ptr(), out.len()) } }
    pub fn symbolic() -> bool { true }
    pub fn dir() -> String { "/ksym".to_string() }
    pub fn put(path: &str, v: &[u8]) { unsafe { ksym_file_put(path.as_ptr(), path.len(), v.as_ptr(), v.len()) } }
    pub fn get(path: &str) -> Option<Vec<u8>> { unsafe { let n = ksym_file_len(path.as_ptr(), path.len()); if n < 0 { return None; } let mut v = vec![0u8; n as usize]; ksym_file_get(path.as_ptr(), path.len(), v.as_mut_ptr(), v.len()); Some(v) } }
    pub fn set_clock(sec: u64) { unsafe { ksym_clock(sec) } }
    pub fn fault(op: u32, nth: u32, kind: u32) { unsafe { ksym_fault(op, nth, kind) } }
    pub fn fault_hit() -> bool { unsafe { ksym_fault_hit() } }
    // targets of the engine's redirections (see engine/README)
    #[no_mangle] pub fn ksym_rt_empty_string() -> String { String::new() }
    #[no_mangle] pub fn ksym_rt_fmt_sym(f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("?") }
    #[no_mangle] pub fn ksym_rt_fmt_hex8(v: u8, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        fn d(n: u8) -> u8 { n + b'0' + ((9u8.wrapping_sub(n) >> 7) * 39) }
        let b = [d(v >> 4), d(v & 15)]; let t = |b: &[u8]| -> &str { unsafe { &*(std::str::from_utf8_unchecked(b) as *const str) } };
        // {:02x} without branching; any other format as core does it
        if f.sign_aware_zero_pad() && f.width() == Some(2) && !f.alternate() && !f.sign_plus() { f.write_str(t(&b)) } else { f.pad_integral(true, "0x", t(if v < 16 { &b[1..] } else { &b })) }
    }
    pub fn keep() { let a: [*const (); 3] = [ksym_rt_empty_string as *const (), ksym_rt_fmt_sym as *const (), ksym_rt_fmt_hex8 as *const ()]; std::hint::black_box(a); }
}

#[cfg(feature = "native")]
mod imp {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicUsize, Ordering};
    use std::sync::Mutex;
    macro_rules! log { ($($a:tt)*) => { emit(format!($($a)*)) } }
    fn emit(s: String) { use std::io::Write; let _ = std::io::stdout().flush(); match std::env::var("KSYM_LOG") { Ok(p) => { if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(p) { let _ = writeln!(f, "{}", s); } } Err(_) => eprintln!("{}", s) } }
    struct Lim; static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
    unsafe impl GlobalAlloc for Lim {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { chk(l.size()); System.alloc(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { chk(l.size()); System.alloc_zeroed(l) }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { chk(n); System.realloc(p, l, n) }
    }
    fn chk(n: usize) { if n > LIMIT.load(Ordering::Relaxed) { LIMIT.store(usize::MAX, Ordering::Relaxed); log!("KSYM-ALLOC {}", n); std::process::exit(43) } }
    #[global_allocator] static A: Lim = Lim;
    static INPUT: Mutex<Option<std::collections::VecDeque<(String, Vec<u8>)>>> = Mutex::new(None);
    fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
    pub fn load() {
        let p = std::env::var("KSYM_INPUT").expect("KSYM_INPUT"); let t = std::fs::read_to_string(p).expect("input");
        *INPUT.lock().unwrap() = Some(t.lines().map(|l| { let (a, b) = l.split_once(' ').unwrap_or((l, "")); (a.to_string(), unhex(b)) }).collect());
        if let Ok(v) = std::env::var("KSYM_ALLOC") { LIMIT.store(v.parse().unwrap(), Ordering::Relaxed) }
    }
    pub fn fill(b: &mut [u8], name: &str) { if b.is_empty() { return; } let x = INPUT.lock().unwrap().as_mut().and_then(|q| q.pop_front()); match x { Some((n, v)) if n == name && v.len() == b.len() => b.copy_from_slice(&v), o => { log!("KSYM-INPUT expected {} {} got {:?}", name, b.len(), o.map(|x| (x.0, x.1.len()))); std::process::exit(78) } } }
    pub fn assume(c: bool) { if !c { log!("KSYM-ASSUME"); std::process::exit(77) } }
    pub fn check(c: bool, id: &str) { if !c { log!("KSYM-ASSERT {}", id); std::process::exit(42) } }
    pub fn cover(k: u32) { log!("KSYM-COVER {}", k) }
    pub fn observe(name: &str, v: &[u8]) { let h: String = v.iter().map(|b| format!("{:02x}", b)).collect(); log!("KSYM-OBS {} {}", name, h) }
    pub fn concrete(v: u64) -> u64 { v }
    pub fn param(i: u32) -> u64 { std::env::var(format!("KSYM_P{}", i)).ok().and_then(|v| v.parse().ok()).unwrap_or(0) }
    pub fn hash(dom: u32, v: &[u8], out: &mut [u8]) {
        let mut h: u64 = 0xcbf29ce484222325 ^ ((dom as u64) << 32); for &b in v { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); h ^= h >> 29; }
        for o in out.iter_mut() { h ^= h << 13; h ^= h >> 7; h ^= h << 17; *o = (h >> 24) as u8; }
    }
    pub fn symbolic() -> bool { false }
    pub fn dir() -> String { std::env::var("KSYM_DIR").expect("KSYM_DIR") }
    pub fn put(path: &str, v: &[u8]) { std::fs::write(path, v).unwrap() }
    pub fn get(path: &str) -> Option<Vec<u8>> { std::fs::read(path).ok() }
    // the same faults for native replays: these definitions take the place of the C library's
    use std::sync::atomic::AtomicU32; use std::ffi::{c_char, c_int, c_long, c_void};
    static F_OP: AtomicU32 = AtomicU32::new(0); static F_NTH: AtomicU32 = AtomicU32::new(0); static F_KIND: AtomicU32 = AtomicU32::new(0); static F_HIT: AtomicU32 = AtomicU32::new(0);
    extern "C" { fn syscall(n: c_long, ...) -> c_long; fn __errno_location() -> *mut c_int; }
    fn now(op: u32) -> bool { if F_OP.load(Ordering::SeqCst) != op { return false; } if F_NTH.load(Ordering::SeqCst) > 0 { F_NTH.fetch_sub(1, Ordering::SeqCst); return false; } F_OP.store(0, Ordering::SeqCst); F_HIT.store(1, Ordering::SeqCst); true }
    unsafe fn err(e: c_int) { *__errno_location() = e }
    #[no_mangle] pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, mut n: usize) -> isize { if fd > 2 && now(1) { match F_KIND.load(Ordering::SeqCst) { 0 => { err(5); return -1 } 1 => { err(4); return -1 } _ => n = n.min(1) } } syscall(0, fd as c_long, b, n) as isize }
    #[no_mangle] pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, mut n: usize) -> isize { if fd > 2 && now(2) { match F_KIND.load(Ordering::SeqCst) { 0 => { err(28); return -1 } 1 => { err(4); return -1 } _ => n = n.min(1) } } syscall(1, fd as c_long, b, n) as isize }
    #[no_mangle] pub unsafe extern "C" fn open64(p: *const c_char, fl: c_int, mode: c_int) -> c_int { if now(3) { err(if F_KIND.load(Ordering::SeqCst) == 1 { 4 } else { 13 }); return -1 } syscall(2, p, fl as c_long, mode as c_long) as c_int }
    pub fn fault(op: u32, nth: u32, kind: u32) { F_NTH.store(nth, Ordering::SeqCst); F_KIND.store(kind, Ordering::SeqCst); F_HIT.store(0, Ordering::SeqCst); F_OP.store(op, Ordering::SeqCst) }
    pub fn fault_hit() -> bool { F_OP.store(0, Ordering::SeqCst); F_HIT.load(Ordering::SeqCst) == 1 }
    static CLOCK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(u64::MAX);
    pub fn set_clock(sec: u64) { CLOCK.store(sec, Ordering::SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn clock_gettime(c: c_int, t: *mut [i64; 2]) -> c_int { let v = CLOCK.load(Ordering::SeqCst); if c == 0 && v != u64::MAX { *t = [v as i64, 999_999_999]; return 0 } syscall(228, c as c_long, t) as c_int }
    pub fn keep() { std::hint::black_box([read as *const (), write as *const (), open64 as *const (), clock_gettime as *const ()]); }
}
#[cfg(feature = "native")]
pub use imp::load;
pub use imp::{assume, check, concrete, cover, fault, fault_hit, hash, keep, observe, param, set_clock, symbolic};

/// the operations a fault can be injected into; kinds: 0 error, 1 interrupted, 2 only one byte is transferred
pub const READ: u32 = 1; pub const WRITE: u32 = 2; pub const OPEN: u32 = 3;
/// n symbolic bytes
pub fn bytes(name: &str, n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; imp::fill(&mut v, name); v }
/// overwrite a slice with symbolic bytes
pub fn fill(b: &mut [u8], name: &str) { imp::fill(b, name) }
pub fn u8(name: &str) -> u8 { let mut b = [0u8; 1]; imp::fill(&mut b, name); b[0] }
pub fn u16(name: &str) -> u16 { let mut b = [0u8; 2]; imp::fill(&mut b, name); u16::from_le_bytes(b) }
pub fn u32(name: &str) -> u32 { let mut b = [0u8; 4]; imp::fill(&mut b, name); u32::from_le_bytes(b) }
pub fn u64(name: &str) -> u64 { let mut b = [0u8; 8]; imp::fill(&mut b, name); u64::from_le_bytes(b) }
/// every value of lo..=hi, one path each
pub fn range(name: &str, lo: usize, hi: usize) -> usize {
    if lo == hi { return lo; }
    let v = if hi - lo < 256 { lo + u8(name) as usize } else { lo + u16(name) as usize };
    assume(v <= hi); concrete(v as u64) as usize
}
/// every element of a list, one path each
pub fn pick<T: Copy>(name: &str, l: &[T]) -> T { l[range(name, 0, l.len() - 1)] }
pub fn flag(name: &str) -> bool { range(name, 0, 1) == 1 }
pub fn path(name: &str) -> PathBuf { PathBuf::from(format!("{}/{}", imp::dir(), name)) }
pub fn put_file(name: &str, v: &[u8]) -> PathBuf { let p = path(name); imp::put(p.to_str().unwrap(), v); p }
pub fn get_file(p: &Path) -> Option<Vec<u8>> { imp::get(p.to_str().unwrap()) }
/// what the code printed on standard output (symbolic runs only; native replays compare through the file too)
pub fn stdout_text() -> Vec<u8> { imp::get(&format!("{}/stdout", imp::dir())).unwrap_or_default() }
#[macro_export]
macro_rules! table { ($($f:ident),* $(,)?) => {
    $( const _: () = { #[export_name = concat!("h_", stringify!($f))] pub extern "C" fn e() { $f() } #[used] static K: extern "C" fn() = e; }; )*
    pub fn dispatch(n: &str) -> bool { match n { $( stringify!($f) => { $f(); true } )* _ => false } }
} }
