//! A contract that is written with the SDK and uses every type of storage field, parameter and
//! return value which the SDK supports. The simulator has its own model of it (sim/src/sdk.rs).

// Without the standard library: its panic machinery is recursive, and SVM refuses recursive programs.
#![no_std]
#![feature(default_alloc_error_handler)]

use svm_sdk::{template, Address, Amount};

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    core::arch::wasm32::unreachable()
}

#[template]
mod Template {
    #[storage]
    struct Storage {
        a8: u8,
        flag: bool,
        s16: i16,
        owner: Address,
        u: u32,
        row: [u16; 5],
        big: i64,
        amt: Amount,
        flags: [bool; 3],
        addrs: [Address; 3],
        wide: [u64; 2],
        s8: i8,
        amts: [Amount; 2],
        last: u64,
        sgn: [i32; 2],
        u16v: u16,
        i32v: i32,
        b8: [u8; 4],
        i8s: [i8; 2],
        i16s: [i16; 3],
        i64s: [i64; 2],
        u32s: [u32; 3],
    }

    #[ctor]
    fn c0(owner: Address, u: u32, big: i64) {
        Storage::set_owner(&owner);
        Storage::set_u(u);
        Storage::set_big(big);
    }

    #[ctor]
    fn c1() {
        let n = Storage::get_last();
        Storage::set_last(n + 1);
    }

    #[endpoint]
    fn f0(a: u8, f: bool, s: i16, t: i8) {
        Storage::set_a8(a);
        Storage::set_flag(f);
        Storage::set_s16(s);
        Storage::set_s8(t);
    }

    #[endpoint]
    fn f1() -> (u8, bool, i16, i8) {
        (Storage::get_a8(), Storage::get_flag(), Storage::get_s16(), Storage::get_s8())
    }

    #[endpoint]
    fn f2(i: u32, v: u16) -> [u16; 2] {
        let old = Storage::get_row(i as usize);
        Storage::set_row(i as usize, v);
        [old, Storage::get_row(i as usize)]
    }

    #[endpoint]
    fn f3(i: u32, a: Address) -> Address {
        let old = Storage::get_addrs(i as usize);
        Storage::set_addrs(i as usize, &a);
        old
    }

    #[endpoint]
    fn f4(set: bool, a: Address) -> Address {
        let old = Storage::get_owner();
        if set {
            Storage::set_owner(&a);
        }
        old
    }

    #[endpoint]
    fn f5(x: i64, y: u64, z: Amount, w: u32) -> (i64, u64, Amount, u32) {
        let old = (Storage::get_big(), Storage::get_last(), Storage::get_amt(), Storage::get_u());
        Storage::set_big(x);
        Storage::set_last(y);
        Storage::set_amt(z);
        Storage::set_u(w);
        old
    }

    #[endpoint]
    fn f6(i: u32, v: u64, a: Amount, b: bool) -> (u64, Amount, bool) {
        let i = i as usize;
        let old = (Storage::get_wide(i), Storage::get_amts(i), Storage::get_flags(i + 1));
        Storage::set_wide(i, v);
        Storage::set_amts(i, a);
        Storage::set_flags(i + 1, b);
        old
    }

    #[endpoint]
    fn f7(v: i32, w: i32, x: u8, y: u8) -> [i32; 2] {
        let old = [Storage::get_sgn(0), Storage::get_sgn(1)];
        Storage::set_sgn(0, v);
        Storage::set_sgn(1, w);
        Storage::set_b8(0, x);
        Storage::set_b8(1, y);
        Storage::set_b8(2, x);
        Storage::set_b8(3, y);
        old
    }

    #[endpoint]
    fn f8(v: Address, w: Address, s: u16) -> [Address; 2] {
        let old = [Storage::get_addrs(1), Storage::get_addrs(2)];
        Storage::set_addrs(1, &v);
        Storage::set_addrs(2, &w);
        Storage::set_row(0, s);
        Storage::set_row(4, s);
        old
    }

    #[endpoint]
    fn f9(v: Amount, w: Amount, f: bool, x: u64) -> [Amount; 2] {
        let old = [Storage::get_amts(0), Storage::get_amts(1)];
        Storage::set_amts(0, v);
        Storage::set_amts(1, w);
        Storage::set_flags(0, f);
        Storage::set_flags(2, !f);
        let y = Storage::get_wide(0);
        Storage::set_wide(1, x + y);
        old
    }

    #[endpoint]
    fn f10(i: u32, a: i8, b: i16, c: i64, d: u32) -> (i8, i16, i64, u32) {
        // The arrays differ in length: the first writes happen before a later index is refused.
        let i = i as usize;
        let d0 = Storage::get_u32s(0);
        Storage::set_u32s(0, d);
        let b0 = Storage::get_i16s(i);
        Storage::set_i16s(i, b);
        let a0 = Storage::get_i8s(i);
        Storage::set_i8s(i, a);
        let c0 = Storage::get_i64s(i);
        Storage::set_i64s(i, c);
        (a0, b0, c0, d0)
    }

    #[endpoint]
    fn f11(a: u16, b: i32) -> (u16, i32, [u8; 4], [bool; 3]) {
        let r = (
            Storage::get_u16v(),
            Storage::get_i32v(),
            [Storage::get_b8(0), Storage::get_b8(1), Storage::get_b8(2), Storage::get_b8(3)],
            [Storage::get_flags(0), Storage::get_flags(1), Storage::get_flags(2)],
        );
        Storage::set_u16v(a);
        Storage::set_i32v(b);
        r
    }
}
