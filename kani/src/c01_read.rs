//! C01: reading a packed integer field.
use crate::common::*;

macro_rules! reads {
    ($name:ident, $T:tt, $signed:expr) => {
        /// For every buffer, every bit offset and every width: the result consists of exactly the
        /// bits of the field, extended to the type, and only bytes of the field are read.
        #[kani::proof]
        #[kani::unwind(11)]
        fn $name() {
            const BITS: usize = std::mem::size_of::<$T>() * 8;
            let offset: usize = kani::any();
            let num_bits: usize = kani::any();
            kani::assume(1 <= num_bits && num_bits <= BITS && offset < MAX * 4);
            // the buffer ends with the last byte of the field
            let n = (offset + num_bits + 7) / 8;
            let buf = buffer(n);
            let _: [u8; 9] = name_bytes(buf, offset / 8);

            let value = read_bytes!($T, buf.as_ptr(), offset, num_bits);

            let k: usize = kani::any();
            kani::assume(k < BITS);
            let actual = (value as u64) >> k & 1 == 1;
            let expected = if k < num_bits {
                bit(buf, offset + k)
            } else {
                $signed && num_bits > 1 && bit(buf, offset + num_bits - 1)
            };
            assert!(actual == expected, "value differs from bits of the field");
            kani::cover!(num_bits + offset % 8 > BITS, "field in one more byte than its type");
            kani::cover!(k >= num_bits && actual == $signed, "bit of sign");
            kani::cover!(k < num_bits && actual, "bit of field");
        }
    };
}

reads!(read_u8, u8, false);
reads!(read_u16, u16, false);
reads!(read_u32, u32, false);
reads!(read_u64, u64, false);
reads!(read_i8, i8, true);
reads!(read_i16, i16, true);
reads!(read_i32, i32, true);
reads!(read_i64, i64, true);

/// A field of type bool is set iff one of its bits is.
#[kani::proof]
#[kani::unwind(11)]
fn read_bool() {
    let offset: usize = kani::any();
    let num_bits: usize = kani::any();
    kani::assume(1 <= num_bits && num_bits <= 8 && offset < MAX * 4);
    let buf = buffer((offset + num_bits + 7) / 8);
    let _: [u8; 2] = name_bytes(buf, offset / 8);
    let value = read_bytes!(bool, buf.as_ptr(), offset, num_bits);
    let mut expected = false;
    let mut k = 0;
    while k < 8 {
        if k < num_bits {
            expected |= bit(buf, offset + k);
        }
        k += 1;
    }
    assert!(value == expected, "value differs from bits of the field");
}

macro_rules! short_forms {
    ($name:ident, $T:tt) => {
        /// Without offset or width, all bits of the type are read, from the begin of the buffer.
        #[kani::proof]
        fn $name() {
            const SIZE: usize = std::mem::size_of::<$T>();
            let buf: [u8; SIZE + 1] = kani::any();
            let k: usize = kani::any();
            kani::assume(k < SIZE);
            let value = read_bytes!($T, buf.as_ptr());
            assert!((value as u64 >> (8 * k)) as u8 == buf[k], "read at the begin");
            let value = read_bytes!($T, buf.as_ptr(), 8);
            assert!((value as u64 >> (8 * k)) as u8 == buf[k + 1], "read at an offset");
        }
    };
}

short_forms!(read_short_u8, u8);
short_forms!(read_short_u16, u16);
short_forms!(read_short_u32, u32);
short_forms!(read_short_u64, u64);
short_forms!(read_short_i8, i8);
short_forms!(read_short_i16, i16);
short_forms!(read_short_i32, i32);
short_forms!(read_short_i64, i64);
