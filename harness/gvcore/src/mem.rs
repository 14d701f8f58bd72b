//! Memory in use by each thread: every allocation of the process, of the
//! libraries in C too, passes through here.
use std::cell::Cell;
use std::ffi::c_void;

extern "C" {
    fn __libc_malloc(n: usize) -> *mut c_void;
    fn __libc_calloc(n: usize, m: usize) -> *mut c_void;
    fn __libc_realloc(p: *mut c_void, n: usize) -> *mut c_void;
    fn __libc_memalign(a: usize, n: usize) -> *mut c_void;
    fn __libc_free(p: *mut c_void);
    fn malloc_usable_size(p: *mut c_void) -> usize;
}
thread_local! {
    static NOW: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
fn add(n: isize) {
    let _ = NOW.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
    });
}
unsafe fn noted(p: *mut c_void) -> *mut c_void {
    if !p.is_null() {
        add(malloc_usable_size(p) as isize);
    }
    p
}
#[no_mangle]
unsafe extern "C" fn malloc(n: usize) -> *mut c_void {
    noted(__libc_malloc(n))
}
#[no_mangle]
unsafe extern "C" fn calloc(n: usize, m: usize) -> *mut c_void {
    noted(__libc_calloc(n, m))
}
#[no_mangle]
unsafe extern "C" fn realloc(p: *mut c_void, n: usize) -> *mut c_void {
    let old = if p.is_null() { 0 } else { malloc_usable_size(p) };
    let q = __libc_realloc(p, n);
    if !q.is_null() || n == 0 {
        add(-(old as isize));
    }
    noted(q)
}
#[no_mangle]
unsafe extern "C" fn memalign(a: usize, n: usize) -> *mut c_void {
    noted(__libc_memalign(a, n))
}
#[no_mangle]
unsafe extern "C" fn aligned_alloc(a: usize, n: usize) -> *mut c_void {
    noted(__libc_memalign(a, n))
}
#[no_mangle]
unsafe extern "C" fn posix_memalign(out: *mut *mut c_void, a: usize, n: usize) -> i32 {
    let p = noted(__libc_memalign(a, n));
    if p.is_null() {
        return 12;
    }
    *out = p;
    0
}
#[no_mangle]
unsafe extern "C" fn free(p: *mut c_void) {
    if !p.is_null() {
        add(-(malloc_usable_size(p) as isize));
    }
    __libc_free(p)
}
/// Runs f; the most memory it had at a time beyond what there was before.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = NOW.with(|c| c.get());
    PEAK.with(|p| p.set(before));
    let r = f();
    (r, (PEAK.with(|p| p.get()) - before).max(0) as usize)
}
