//! The entry points that ThreadSanitizer's compiler pass calls before every memory access
//! of instrumented code.
use crate::*;
use std::sync::atomic::*;

macro_rules! plain {
    ($($n:ident $sz:expr, $k:expr;)*) => { $(
        #[no_mangle]
        pub extern "C" fn $n(a: usize) { access(a, $sz, $k); }
    )* };
}
plain! {
    __tsan_read1 1, K_READ; __tsan_read2 2, K_READ; __tsan_read4 4, K_READ; __tsan_read8 8, K_READ; __tsan_read16 16, K_READ;
    __tsan_write1 1, K_WRITE; __tsan_write2 2, K_WRITE; __tsan_write4 4, K_WRITE; __tsan_write8 8, K_WRITE; __tsan_write16 16, K_WRITE;
    __tsan_unaligned_read1 1, K_READ; __tsan_unaligned_read2 2, K_READ; __tsan_unaligned_read4 4, K_READ; __tsan_unaligned_read8 8, K_READ; __tsan_unaligned_read16 16, K_READ;
    __tsan_unaligned_write1 1, K_WRITE; __tsan_unaligned_write2 2, K_WRITE; __tsan_unaligned_write4 4, K_WRITE; __tsan_unaligned_write8 8, K_WRITE; __tsan_unaligned_write16 16, K_WRITE;
    __tsan_volatile_read1 1, K_READ; __tsan_volatile_read2 2, K_READ; __tsan_volatile_read4 4, K_READ; __tsan_volatile_read8 8, K_READ; __tsan_volatile_read16 16, K_READ;
    __tsan_volatile_write1 1, K_WRITE; __tsan_volatile_write2 2, K_WRITE; __tsan_volatile_write4 4, K_WRITE; __tsan_volatile_write8 8, K_WRITE; __tsan_volatile_write16 16, K_WRITE;
    __tsan_unaligned_volatile_read1 1, K_READ; __tsan_unaligned_volatile_read2 2, K_READ; __tsan_unaligned_volatile_read4 4, K_READ; __tsan_unaligned_volatile_read8 8, K_READ; __tsan_unaligned_volatile_read16 16, K_READ;
    __tsan_unaligned_volatile_write1 1, K_WRITE; __tsan_unaligned_volatile_write2 2, K_WRITE; __tsan_unaligned_volatile_write4 4, K_WRITE; __tsan_unaligned_volatile_write8 8, K_WRITE; __tsan_unaligned_volatile_write16 16, K_WRITE;
    __tsan_read_write1 1, K_WRITE; __tsan_read_write2 2, K_WRITE; __tsan_read_write4 4, K_WRITE; __tsan_read_write8 8, K_WRITE; __tsan_read_write16 16, K_WRITE;
    __tsan_unaligned_read_write1 1, K_WRITE; __tsan_unaligned_read_write2 2, K_WRITE; __tsan_unaligned_read_write4 4, K_WRITE; __tsan_unaligned_read_write8 8, K_WRITE; __tsan_unaligned_read_write16 16, K_WRITE;
}

#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_pc: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_end() {}
#[no_mangle]
pub extern "C" fn __tsan_vptr_update(_a: usize, _b: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_vptr_read(_a: usize) {}

#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(mo: i32) {
    fence(Ordering::SeqCst);
    rt().fence(mo);
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_mo: i32) {
    compiler_fence(Ordering::SeqCst);
}

/// How far a bulk copy is torn: in words when everything is word-aligned, else in bytes.
/// Each unit is one access that other threads can run between.
fn unit(d: usize, s: usize, n: usize) -> usize {
    if (d | s | n) & 7 == 0 {
        8
    } else {
        1
    }
}

unsafe fn copy_units(d: usize, s: usize, n: usize) {
    let u = unit(d, s, n);
    let k = n / u;
    let back = d > s && d < s + n;
    for i in 0..k {
        let o = if back { k - 1 - i } else { i } * u;
        if in_arena(s) {
            access(s + o, u, K_READ);
        }
        let v8 = if u == 8 { *((s + o) as *const u64) } else { *((s + o) as *const u8) as u64 };
        if in_arena(d) {
            access(d + o, u, K_WRITE);
        }
        if u == 8 {
            *((d + o) as *mut u64) = v8;
        } else {
            *((d + o) as *mut u8) = v8 as u8;
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: usize, s: usize, n: usize) -> usize {
    if (in_arena(d) || in_arena(s)) && n != 0 {
        copy_units(d, s, n);
    } else {
        std::ptr::copy(s as *const u8, d as *mut u8, n);
    }
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: usize, s: usize, n: usize) -> usize {
    __tsan_memmove(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: usize, c: i32, n: usize) -> usize {
    if in_arena(d) && n != 0 {
        access(d, n, K_WRITE);
    }
    std::ptr::write_bytes(d as *mut u8, c as u8, n);
    d
}

macro_rules! atomics {
    ($t:ty, $at:ty, $sz:expr, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $nand:ident, $or:ident, $xor:ident, $cas:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(a: *mut $t, mo: i32) -> $t {
            let at = <$at>::from_ptr(a);
            if !tracked(a as usize) {
                return at.load(Ordering::SeqCst);
            }
            access_atomic(a as usize, $sz, K_ALOAD);
            let v = at.load(Ordering::SeqCst);
            let r = rt();
            let v = r.load_value(a as usize, v as u64, mo) as $t;
            if r.phase == Phase::Conc {
                let t = &mut r.tasks[r.cur];
                let serial = t.op_serial;
                let slot = &mut t.last_load[(a as usize >> 6) & 15];
                if slot.0 == a as usize && slot.1 != v as u64 && slot.2 == serial {
                    r.probes[P_VCHANGE] += 1;
                    r.racy = true;
                }
                *slot = (a as usize, v as u64, serial);
                r.validate(a as usize, v as u64);
            }
            v
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(a: *mut $t, v: $t, mo: i32) {
            access_atomic(a as usize, $sz, K_ASTORE);
            <$at>::from_ptr(a).store(v, Ordering::SeqCst);
            if tracked(a as usize) {
                rt().sync_store(a as usize, v as u64, mo, false);
            }
        }
        atomics!(@rmw $t, $at, $sz, $xchg, swap);
        atomics!(@rmw $t, $at, $sz, $add, fetch_add);
        atomics!(@rmw $t, $at, $sz, $sub, fetch_sub);
        atomics!(@rmw $t, $at, $sz, $and, fetch_and);
        atomics!(@rmw $t, $at, $sz, $nand, fetch_nand);
        atomics!(@rmw $t, $at, $sz, $or, fetch_or);
        atomics!(@rmw $t, $at, $sz, $xor, fetch_xor);
        #[no_mangle]
        pub unsafe extern "C" fn $cas(a: *mut $t, exp: $t, new: $t, mo: i32, fmo: i32) -> $t {
            access_atomic(a as usize, $sz, K_ARMW);
            let res = <$at>::from_ptr(a).compare_exchange(exp, new, Ordering::SeqCst, Ordering::SeqCst);
            if tracked(a as usize) {
                let r = rt();
                if res.is_ok() {
                    r.sync_load(a as usize, exp as u64, mo);
                    r.validate(a as usize, exp as u64);
                    r.seen(a as usize, new as u64);
                    r.sync_store(a as usize, new as u64, mo, true);
                } else {
                    if let Err(v) = res {
                        r.sync_load(a as usize, v as u64, fmo);
                        r.seen(a as usize, v as u64);
                    }
                    if r.phase == Phase::Conc {
                        r.probes[P_CAS_FAIL] += 1;
                        r.racy = true;
                    }
                }
            }
            match res { Ok(v) => v, Err(v) => v }
        }
    };
    (@rmw $t:ty, $at:ty, $sz:expr, $n:ident, $m:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $n(a: *mut $t, v: $t, mo: i32) -> $t {
            access_atomic(a as usize, $sz, K_ARMW);
            let at = <$at>::from_ptr(a);
            let o = at.$m(v, Ordering::SeqCst);
            if tracked(a as usize) {
                let r = rt();
                let n = at.load(Ordering::SeqCst) as u64;
                r.sync_load(a as usize, o as u64, mo);
                r.seen(a as usize, n);
                r.sync_store(a as usize, n, mo, true);
            }
            o
        }
    };
}
atomics!(u8, AtomicU8, 1, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_nand, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_compare_exchange_val);
atomics!(u16, AtomicU16, 2, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_nand, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_compare_exchange_val);
atomics!(u32, AtomicU32, 4, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_nand, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_compare_exchange_val);
atomics!(u64, AtomicU64, 8, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_nand, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_compare_exchange_val);
