//! Uniform access to the unsigned integer types
use morton_index::align::Alignable;
use morton_index::number::Bits;
use std::fmt::Debug;
use std::hash::Hash;

pub trait Word: Bits + Alignable + Copy + Clone + Default + PartialEq + Eq + PartialOrd + Ord + Debug + Hash + Send + Sync + 'static {
    const WNAME: &'static str;
    const W: usize;
    fn of(v: u128) -> Self;
    fn val(self) -> u128;
    fn native(self) -> Vec<u8>;
}

macro_rules! word {
    ($($t:ident)*) => { $(
        impl Word for $t {
            const WNAME: &'static str = stringify!($t);
            const W: usize = std::mem::size_of::<$t>() * 8;
            fn of(v: u128) -> Self {
                v as $t
            }
            fn val(self) -> u128 {
                self as u128
            }
            fn native(self) -> Vec<u8> {
                self.to_ne_bytes().to_vec()
            }
        }
    )* };
}
word!(u8 u16 u32 u64 u128 usize);

/// Mask with the low n bits
pub fn low(n: usize) -> u128 {
    if n >= 128 {
        u128::MAX
    } else {
        (1 << n) - 1
    }
}

/// Bit patterns of a width: empty, full, alternating, irregular, every single bit, its complement, every low mask
pub fn patterns(w: usize, more: bool) -> Vec<u128> {
    let m = low(w);
    let mut p = vec![0, m];
    for b in [0x55u8, 0xAA, 0x33, 0x0F, 0xE4, 0x1B, 0x96] {
        p.push(u128::from_ne_bytes([b; 16]) & m);
    }
    p.push(0x0123_4567_89AB_CDEF_FEDC_BA98_7654_3210 & m);
    p.push(0xF0E1_D2C3_B4A5_9687_7869_5A4B_3C2D_1E0F & m);
    let step = if more || w <= 16 { 1 } else { 5 };
    for k in (0..w).step_by(step) {
        p.push(1 << k);
        p.push(m ^ (1 << k));
        if more {
            p.push(low(k));
            p.push(m ^ low(k));
        }
    }
    p.push(1 << (w - 1));
    p.sort_unstable();
    p.dedup();
    p
}

#[macro_export]
macro_rules! each_word {
    ($f:ident ( $($a:expr),* )) => {
        $f::<u8>($($a),*);
        $f::<u16>($($a),*);
        $f::<u32>($($a),*);
        $f::<u64>($($a),*);
        $f::<u128>($($a),*);
        $f::<usize>($($a),*);
    };
}
