//! Raw system calls and the real libc entry points behind the interposed ones.
use std::arch::asm;
use std::ffi::CStr;

#[inline(always)]
pub unsafe fn sc(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}

pub unsafe fn futex_wait_raw(addr: *const u32, val: u32, shared: bool) {
    let op = if shared { 0 } else { 128 };
    sc(libc::SYS_futex, addr as usize, op, val as usize, 0, 0, 0);
}

pub unsafe fn futex_wake_raw(addr: *const u32, shared: bool) {
    let op = if shared { 1 } else { 1 | 128 };
    sc(libc::SYS_futex, addr as usize, op, 1, 0, 0, 0);
}

pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

/// libc-style return: -1 and errno.
pub fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno((-r) as i32);
        -1
    } else {
        r
    }
}

/// Look up the next definition of a libc symbol (the real one behind our interposer).
pub unsafe fn real(cache: *mut usize, name: &'static [u8]) -> usize {
    if *cache == 0 {
        let n = CStr::from_bytes_with_nul_unchecked(name);
        let p = libc::dlsym(libc::RTLD_NEXT, n.as_ptr());
        if p.is_null() {
            sc(libc::SYS_exit_group, 98, 0, 0, 0, 0, 0);
        }
        *cache = p as usize;
    }
    *cache
}

#[macro_export]
macro_rules! real_fn {
    ($name:literal, $ty:ty) => {{
        static mut CACHE: usize = 0;
        std::mem::transmute::<usize, $ty>($crate::sys::real(
            std::ptr::addr_of_mut!(CACHE),
            concat!($name, "\0").as_bytes(),
        ))
    }};
}

pub fn exit_group(code: i32) -> ! {
    unsafe {
        sc(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    }
    loop {}
}

pub fn real_now_ns() -> u64 {
    let mut ts = [0i64; 2];
    unsafe {
        sc(libc::SYS_clock_gettime, 1, ts.as_mut_ptr() as usize, 0, 0, 0, 0);
    }
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}
