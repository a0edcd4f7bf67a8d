//! `digest SEED COUNT`: one line per operation with a hash of its results on COUNT generated
//! operands. `digest SEED COUNT OP`: one line per operand. Built with any subset of the features.

#[path = "../../harness/src/ops.rs"]
mod ops;

use ops::{In, Out};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[cfg(feature = "defmt")]
mod logger {
    // the crate's Format impls refer to a logger: one that drops everything
    #[defmt::global_logger]
    struct Null;
    unsafe impl defmt::Logger for Null {
        fn acquire() {}
        unsafe fn flush() {}
        unsafe fn release() {}
        unsafe fn write(_: &[u8]) {}
    }
    defmt::timestamp!("");
    #[no_mangle]
    extern "Rust" fn _defmt_panic() -> ! {
        panic!("defmt")
    }
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let z = self.0;
        let z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        let z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
    fn float(&mut self) -> f32 {
        const S: [u32; 20] = [
            0, 0x8000_0000, 0x3f80_0000, 0xbf80_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7f7f_ffff, 0xff7f_ffff, 1,
            0x0080_0000, 0x007f_ffff, 0x3f00_0000, 0x4b00_0000, 0x4b80_0000, 0x4f00_0000, 0xcf00_0000, 0x42b1_7218, 0xc2ae_ac50, 0x40c9_0fdb,
        ];
        match self.below(10) {
            0 | 1 => self.below(41) as f32 - 20.0,
            2 => (self.below(4001) as f32 - 2000.0) / 8.0,
            3 => f32::from_bits(S[self.below(20) as usize].wrapping_add(if self.below(3) == 0 { self.below(3) as u32 } else { 0 })),
            4 | 5 | 6 => f32::from_bits(((self.below(2) as u32) << 31) | ((103 + self.below(48) as u32) << 23) | self.below(1 << 23) as u32),
            _ => f32::from_bits(self.next() as u32),
        }
    }
    fn related(&mut self, a: f32) -> f32 {
        match self.below(6) {
            0 => a,
            1 => -a,
            2 => a * (1.0 + self.below(7) as f32),
            _ => self.float(),
        }
    }
}

fn input(seed: u64, i: u64) -> In {
    let mut r = Rng(seed.wrapping_mul(0x1234_5678_9abc_def1) ^ i.wrapping_mul(0xd1b5_4a32_d192_ed03));
    // one third steps through the bit patterns, from a start that the seed chooses
    let a = if i % 3 == 0 { f32::from_bits((i as u32).wrapping_mul(2_654_435_761).wrapping_add(seed as u32)) } else { r.float() };
    In {
        a,
        b: r.related(a),
        c: r.related(a),
        n: match r.below(4) {
            0 => r.next() as i32,
            1 => r.below(300) as i32 - 150,
            2 => [i32::MIN, i32::MAX, 0, -1][r.below(4) as usize],
            _ => r.below(21) as i32 - 10,
        },
        k: if r.below(6) == 0 { r.next() as usize } else { r.below(4) as usize },
        v: std::array::from_fn(|_| r.related(a)),
        w: std::array::from_fn(|_| r.related(a)),
        p: std::array::from_fn(|_| r.related(a)),
        q: std::array::from_fn(|_| r.related(a)),
        s: (0..r.below(6)).map(|_| r.related(a)).collect(),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let seed: u64 = args[0].parse().unwrap();
    let count: u64 = args[1].parse().unwrap();
    let only = args.get(2);
    for (name, f) in ops::table() {
        if only.is_some_and(|o| o != name) {
            continue;
        }
        let (mut h, mut real) = (0xcbf2_9ce4_8422_2325u64, 0u64);
        for i in 0..count {
            let x = input(seed, i);
            let mut out = Out::default();
            let panicked = catch_unwind(AssertUnwindSafe(|| f(&x, &mut out))).is_err();
            if only.is_some() {
                println!("{}\t{}\t{out:?}\t{x:?}", i, if panicked { "panicked" } else { "returned" });
                continue;
            }
            let mut add = |v: u64| h = (h.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
            add(panicked as u64 * 2 + out.documented as u64);
            add(out.f.len() as u64);
            for &b in &out.f {
                add(b as u64);
            }
            for b in out.text.bytes() {
                add(b as u64);
            }
            // something other than NaN came of it
            real += (!panicked && (!out.text.is_empty() || out.f.iter().any(|&b| b != 0x7fc0_0000))) as u64;
        }
        if only.is_none() {
            println!("{name}\t{real}\t{h:016x}");
        }
    }
}
