//! C02: writing a packed integer field.
use crate::common::*;

macro_rules! writes {
    ($name:ident, $T:tt) => {
        /// For every buffer, every bit offset, width and value: the bits of the field become the low
        /// bits of the value, and no other bit of the buffer changes.
        #[kani::proof]
        #[kani::unwind(11)]
        fn $name() {
            const BITS: usize = std::mem::size_of::<$T>() * 8;
            let offset: usize = kani::any();
            let num_bits: usize = kani::any();
            kani::assume(1 <= num_bits && num_bits <= BITS && offset < MAX * 4);
            let n: usize = kani::any();
            // the buffer may, but does not have to be larger than the field
            kani::assume(n >= (offset + num_bits + 7) / 8);
            let buf = buffer(n);
            let _: [u8; 9] = name_bytes(buf, offset / 8);
            // an arbitrary bit of the buffer
            let k: usize = kani::any();
            kani::assume(k / 8 < n);
            let inside = offset <= k && k < offset + num_bits;
            let byte: u8 = kani::any();
            if !inside {
                buf[k / 8] = byte;
            }
            let before = bit(buf, k);
            let value: $T = kani::any();

            write_bytes!($T; value, buf, offset, num_bits);

            let expected = if inside {
                (value as u64) >> (k - offset) & 1 == 1
            } else {
                before
            };
            assert!(bit(buf, k) == expected, "bit of the buffer differs");
            kani::cover!(inside && expected && !before, "bit set");
            kani::cover!(inside && !expected && before, "bit cleared");
            kani::cover!(k >= offset + num_bits && k / 8 == (offset + num_bits) / 8, "bit behind");
            kani::cover!(k < offset, "bit in front");
        }
    };
}

writes!(write_bool, bool);
writes!(write_u8, u8);
writes!(write_u16, u16);
writes!(write_u32, u32);
writes!(write_u64, u64);
writes!(write_i8, i8);
writes!(write_i16, i16);
writes!(write_i32, i32);
writes!(write_i64, i64);

macro_rules! short_forms {
    ($name:ident, $T:tt) => {
        /// Without offset or width, all bits of the type are written, at the begin of the buffer.
        #[kani::proof]
        fn $name() {
            const SIZE: usize = std::mem::size_of::<$T>();
            let value: $T = kani::any();
            let mut buf: [u8; SIZE + 2] = kani::any();
            let before = buf;
            let k: usize = kani::any();
            kani::assume(k < SIZE + 2);
            if kani::any() {
                write_bytes!($T; value, &mut buf);
                let expected = if k < SIZE { (value as u64 >> (8 * k)) as u8 } else { before[k] };
                assert!(buf[k] == expected, "write at the begin");
            } else {
                write_bytes!($T; value, &mut buf, 8);
                let inside = 1 <= k && k < 1 + SIZE;
                let expected = if inside { (value as u64 >> (8 * (k - 1))) as u8 } else { before[k] };
                assert!(buf[k] == expected, "write at an offset");
            }
        }
    };
}

short_forms!(write_short_u8, u8);
short_forms!(write_short_u16, u16);
short_forms!(write_short_u32, u32);
short_forms!(write_short_u64, u64);
short_forms!(write_short_i8, i8);
short_forms!(write_short_i16, i16);
short_forms!(write_short_i32, i32);
short_forms!(write_short_i64, i64);
