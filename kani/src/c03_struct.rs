//! C03: fields of structs.
//!
//! The layout of the structs is symbolic: macro `define_struct` takes expressions for offset and
//! width of a field. So what is proved here, is proved for every layout of fields of these types.
use crate::common::*;
use flatdata::{IndexStruct, Struct, StructBuf};

static mut OFFSET: [usize; 4] = [0; 4];
static mut WIDTH: [usize; 4] = [0; 4];
fn offset(i: usize) -> usize {
    unsafe { OFFSET[i] }
}
fn width(i: usize) -> usize {
    unsafe { WIDTH[i] }
}

const SIZE: usize = 12;
/// Size of the buffer a struct is placed in.
const BUF: usize = SIZE + 4;

/// An arbitrary layout of disjoint fields with types of the given sizes in bits.
fn any_layout(max_width: [usize; 4]) {
    let o: [usize; 4] = kani::any();
    let w: [usize; 4] = kani::any();
    let mut i = 0;
    while i < 4 {
        kani::assume(1 <= w[i] && w[i] <= max_width[i]);
        kani::assume(o[i] < SIZE * 8 && o[i] + w[i] <= SIZE * 8);
        let mut j = 0;
        while j < i {
            kani::assume(o[i] + w[i] <= o[j] || o[j] + w[j] <= o[i]);
            j += 1;
        }
        i += 1;
    }
    unsafe {
        OFFSET = o;
        WIDTH = w;
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(u16)]
pub enum Kind {
    A = 0,
    B = 1,
    C = 2,
    D = 3,
}
impl flatdata::helper::Int for Kind {
    const IS_SIGNED: bool = false;
}
impl Kind {
    fn any() -> Self {
        match kani::any::<u8>() & 3 {
            0 => Kind::A,
            1 => Kind::B,
            2 => Kind::C,
            _ => Kind::D,
        }
    }
}

define_struct!(
    S, RefS, RefMutS, "schema of S", 12,
    (long, set_long, u64: u64, offset(0), width(0)),
    (int, set_int, i32: i32, offset(1), width(1)),
    (kind, set_kind, Kind: u16, offset(2), width(2)),
    (flag, set_flag, bool: bool, offset(3), width(3))
);
define_struct!(
    Z, RefZ, RefMutZ, "schema of Z", 12,
    (long, set_long, i64, offset(0), width(0)),
    (int, set_int, u32, offset(1), width(1)),
    (short, set_short, i16, offset(2), width(2)),
    (byte, set_byte, u8, offset(3), width(3))
);

fn low(value: u64, num_bits: usize) -> u64 {
    if num_bits == 64 { value } else { value & ((1 << num_bits) - 1) }
}
/// What is read after `value` was written to a signed field.
fn sign_extended(value: u64, num_bits: usize) -> u64 {
    let v = low(value, num_bits);
    if num_bits > 1 && num_bits < 64 && v >> (num_bits - 1) == 1 {
        v | !((1 << num_bits) - 1)
    } else {
        v
    }
}


macro_rules! set_one {
    ($name:ident, $T:ident, $max:expr, $kind_width:expr, $i:expr, $set:ident, $get:ident, $any:expr, $expected:expr) => {
        pub mod $name {
            use super::*;

            /// After a field is set, it reads as the value (as far as the value fits), whatever was
            /// stored before.
            #[kani::proof]
            #[kani::unwind(14)]
            fn value() {
                any_layout($max);
                if $kind_width {
                    kani::assume(width(2) == 2);
                }
                let mut data: [u8; BUF] = kani::any();
                let value = $any;
                let mut s = <$T as Struct>::create_mut(&mut data[..]);
                s.$set(value);
                // one of three ways to read the field
                match kani::any::<u8>() {
                    0 => assert!(s.$get() == $expected(value), "getter of mutable reference"),
                    1 => assert!(s.into_ref().$get() == $expected(value), "getter of its reference"),
                    _ => {
                        let r = <$T as Struct>::create(&data[..]);
                        assert!(r.$get() == $expected(value), "getter of reference");
                    }
                }
            }

            /// No bit outside of the field changes.
            #[kani::proof]
            #[kani::unwind(14)]
            fn frame() {
                any_layout($max);
                if $kind_width {
                    kani::assume(width(2) == 2);
                }
                let mut data: [u8; BUF] = kani::any();
                let before = data;
                <$T as Struct>::create_mut(&mut data[..]).$set($any);
                let k: usize = kani::any();
                kani::assume(k < BUF * 8);
                let inside = offset($i) <= k && k < offset($i) + width($i);
                if !inside {
                    assert!(bit(&data, k) == bit(&before, k), "bit outside of the field");
                }
                kani::cover!(inside && bit(&data, k) != bit(&before, k), "field changed");
            }
        }
    };
}

const MS: [usize; 4] = [64, 32, 2, 8];
const MZ: [usize; 4] = [64, 32, 16, 8];
set_one!(set_u64, S, MS, true, 0, set_long, long, kani::any::<u64>(), |v: u64| low(v, width(0)));
set_one!(set_i32, S, MS, true, 1, set_int, int, kani::any::<i32>(), |v: i32| sign_extended(v as u64, width(1)) as i32);
set_one!(set_enum, S, MS, true, 2, set_kind, kind, Kind::any(), |v: Kind| v);
set_one!(set_bool, S, MS, true, 3, set_flag, flag, kani::any::<bool>(), |v: bool| v);
set_one!(set_i64, Z, MZ, false, 0, set_long, long, kani::any::<i64>(), |v: i64| sign_extended(v as u64, width(0)) as i64);
set_one!(set_u32, Z, MZ, false, 1, set_int, int, kani::any::<u32>(), |v: u32| low(v as u64, width(1)) as u32);
set_one!(set_i16, Z, MZ, false, 2, set_short, short, kani::any::<i16>(), |v: i16| sign_extended(v as u64, width(2)) as i16);
set_one!(set_u8, Z, MZ, false, 3, set_byte, byte, kani::any::<u8>(), |v: u8| low(v as u64, width(3)) as u8);

/// A getter does not depend on bits outside of its field: two structs are equal iff all their
/// fields are.
#[kani::proof]
#[kani::unwind(14)]
fn equality() {
    any_layout(MZ);
    let a: [u8; SIZE] = kani::any();
    let b: [u8; SIZE] = kani::any();
    let (a, b) = (Z::create(&a[..]), Z::create(&b[..]));
    let same = a.long() == b.long() && a.int() == b.int() && a.short() == b.short() && a.byte() == b.byte();
    assert!((a == b) == same, "equality of structs");
    kani::cover!(same, "equal");
    kani::cover!(!same, "different");
}

/// Copying a struct sets all fields as in the source; nothing outside of fields changes.
#[kani::proof]
#[kani::unwind(14)]
fn fill_from() {
    any_layout(MZ);
    let src: [u8; SIZE] = kani::any();
    let mut dst: [u8; BUF] = kani::any();
    let before = dst;
    let source = Z::create(&src[..]);
    Z::create_mut(&mut dst[..]).fill_from(&source);
    let k: usize = kani::any();
    kani::assume(k < BUF * 8);
    let mut inside = false;
    let mut i = 0;
    while i < 4 {
        inside |= offset(i) <= k && k < offset(i) + width(i);
        i += 1;
    }
    let expected = if inside { bit(&src, k) } else { bit(&before, k) };
    assert!(bit(&dst, k) == expected, "bit after copy");
    kani::cover!(inside, "in a field");
    kani::cover!(!inside, "outside of fields");
}

define_index!(Idx, RefIdx, RefMutIdx, "index", 9, width(0));

/// Entries of an index: what is set is read back, if it fits.
#[kani::proof]
#[kani::unwind(14)]
fn index() {
    let w: usize = kani::any();
    kani::assume(1 <= w && w <= 64);
    unsafe { WIDTH = [w; 4] };
    let mut data: [u8; 9] = kani::any();
    let before = data;
    let value: usize = kani::any();
    Idx::set_index(Idx::create_mut(&mut data[..]), value);
    assert!(Idx::index(Idx::create(&data[..])) as u64 == low(value as u64, w), "index");
    let k: usize = kani::any();
    kani::assume(w <= k && k < 72);
    assert!(bit(&data, k) == bit(&before, k), "bit outside of the index");
}

define_struct!(
    Y, RefY, RefMutY, "schema of Y", 13,
    (long, set_long, i64, 3, 62),
    (int, set_int, u32, 65, 31),
    (byte, set_byte, u8, 97, 7)
);

/// A buffer for a single struct is zero at first, and afterwards contains what was set.
#[kani::proof]
#[kani::unwind(15)]
fn struct_buf() {
    let mut s = if kani::any() { StructBuf::<Y>::new() } else { StructBuf::<Y>::default() };
    assert!(s.as_bytes().len() == 13, "size of a new buffer");
    let k: usize = kani::any();
    kani::assume(k < 13 * 8);
    assert!(!bit(s.as_bytes(), k), "zero at first");
    let (x, y): (i64, u32) = (kani::any(), kani::any());
    s.get_mut().set_long(x);
    s.get_mut().set_int(y);
    assert!(s.get().long() == sign_extended(x as u64, 62) as i64, "field");
    assert!(s.get().int() == low(y as u64, 31) as u32, "field");
    assert!(s.get_mut().int() == low(y as u64, 31) as u32, "field");
    assert!(s.get().byte() == 0, "field not set");
    let bytes: &[u8] = s.as_ref();
    assert!(bytes.len() == 13, "size");
    let expected = if 3 <= k && k < 65 {
        x as u64 >> (k - 3) & 1 == 1
    } else if 65 <= k && k < 96 {
        y as u64 >> (k - 65) & 1 == 1
    } else {
        false
    };
    assert!(bit(bytes, k) == expected, "bytes");
}
