use std::alloc::{alloc, Allocator, Layout};
use std::ops::Bound;

/// Largest object considered; the size itself is symbolic.
pub const MAX: usize = if cfg!(feature = "small") {
    // for a counterexample which is easy to read and to run
    1 << 16
} else if cfg!(feature = "thorough") {
    1 << 40
} else {
    1 << 34
};

/// A buffer with `n` bytes, every one of them arbitrary.
pub fn buffer(n: usize) -> &'static mut [u8] {
    kani::assume(n < MAX);
    unsafe {
        let p = alloc(Layout::from_size_align_unchecked(if n == 0 { 1 } else { n }, 1));
        std::slice::from_raw_parts_mut(p, n)
    }
}

/// Gives the first bytes of `buf` from `at` on names of their own, so that a counterexample holds
/// their values. (They are arbitrary before and after it.)
pub fn name_bytes<const N: usize>(buf: &mut [u8], at: usize) -> [u8; N] {
    let w: [u8; N] = kani::any();
    let mut i = 0;
    while i < N {
        if at < buf.len() && i < buf.len() - at {
            buf[at + i] = w[i];
        }
        i += 1;
    }
    w
}

/// Bit `k` of a bit stream stored in `buf`: least significant bit of every byte first.
pub fn bit(buf: &[u8], k: usize) -> bool {
    buf[k / 8] >> (k % 8) & 1 == 1
}

/// Marks a place no execution may reach. Other than a panic, this also fails a harness marked with
/// `should_panic`, i.e. one about calls that have to panic.
pub fn unreachable_place() {
    unsafe { std::ptr::read_volatile(std::ptr::null::<u8>()) };
    kani::assume(false);
}

/// Structs of `N` bytes, which are not looked into. An item is equal to another one iff it is the
/// same place in memory.
#[derive(Clone)]
pub struct Opaque<const N: usize>;

#[derive(Clone, Copy, Debug)]
pub struct OpaqueRef<'a>(pub &'a [u8]);

#[derive(Debug)]
pub struct OpaqueMut<'a>(pub &'a mut [u8]);

impl<'a> PartialEq for OpaqueRef<'a> {
    fn eq(&self, other: &Self) -> bool {
        self.0.as_ptr() == other.0.as_ptr()
    }
}
impl<'a> flatdata::Ref for OpaqueRef<'a> {}
impl<'a> flatdata::RefMut for OpaqueMut<'a> {}

impl<'a, const N: usize> flatdata::Struct<'a> for Opaque<N> {
    const SCHEMA: &'static str = "opaque";
    const SIZE_IN_BYTES: usize = N;

    type Item = OpaqueRef<'a>;
    fn create(data: &'a [u8]) -> OpaqueRef<'a> {
        // what the accessors of a struct rely on
        assert!(data.len() >= N, "struct is created from too few bytes");
        OpaqueRef(data)
    }

    type ItemMut = OpaqueMut<'a>;
    fn create_mut(data: &'a mut [u8]) -> OpaqueMut<'a> {
        assert!(data.len() >= N, "struct is created from too few bytes");
        OpaqueMut(data)
    }
}

pub fn any_range() -> (Bound<usize>, Bound<usize>) {
    (any_bound(), any_bound())
}
pub fn any_bound() -> Bound<usize> {
    match kani::any::<u8>() {
        0 => Bound::Unbounded,
        1 => Bound::Included(kani::any()),
        _ => Bound::Excluded(kani::any()),
    }
}

/// First index of a range and index behind the last one.
pub fn ends(range: &(Bound<usize>, Bound<usize>), len: usize) -> (u128, u128) {
    let start = match range.0 {
        Bound::Included(index) => index as u128,
        Bound::Excluded(index) => index as u128 + 1,
        Bound::Unbounded => 0,
    };
    let end = match range.1 {
        Bound::Included(index) => index as u128 + 1,
        Bound::Excluded(index) => index as u128,
        Bound::Unbounded => len as u128,
    };
    (start, end)
}

/// Contract of `Vec::resize` for bytes: the first elements are kept, and the other ones are `value`.
/// For vectors of structs of many MiB.
pub fn resize<T: Clone, A: Allocator>(v: &mut Vec<T, A>, new_len: usize, value: T) {
    assert!(std::mem::size_of::<T>() == 1, "contract is for bytes only");
    let len = v.len();
    if new_len > len {
        v.reserve(new_len - len);
        let value: u8 = unsafe { std::mem::transmute_copy(&value) };
        unsafe { std::ptr::write_bytes(v.as_mut_ptr().add(len) as *mut u8, value, new_len - len) };
    }
    unsafe { v.set_len(new_len) };
}

/// Value of a result which is no error. Other than `unwrap`, this does not format the error, which
/// is expensive to verify.
pub trait Good<T> {
    fn good(self) -> T;
}
impl<T, E> Good<T> for Result<T, E> {
    fn good(self) -> T {
        match self {
            Ok(value) => value,
            Err(e) => {
                std::mem::forget(e);
                panic!("unexpected error")
            }
        }
    }
}

/// Contract of `format!` for strings: text of the pieces and of the strings, in order. The function of
/// the library calls pointers to functions of unknown value, which is expensive to verify. Values of
/// other types, or with options, yield an empty text here.
pub fn format(args: std::fmt::Arguments<'_>) -> String {
    type Words = [*const (); 2];
    let mut text = Vec::with_capacity(32);
    if let Some(s) = args.as_str() {
        text.extend_from_slice(s.as_bytes());
        return unsafe { String::from_utf8_unchecked(text) };
    }
    let of_str = <&str as std::fmt::Display>::fmt as fn(&&'static str, &mut std::fmt::Formatter) -> std::fmt::Result;
    let of_string = <String as std::fmt::Display>::fmt as fn(&String, &mut std::fmt::Formatter) -> std::fmt::Result;
    unsafe {
        // cf. the comment in core::fmt::Arguments
        let [template, values]: Words = std::mem::transmute_copy(&args);
        let (mut template, mut values) = (template as *const u8, values as *const Words);
        loop {
            let n = *template as usize;
            template = template.add(1);
            if n == 0 {
                break;
            } else if n < 0x80 {
                text.extend_from_slice(std::slice::from_raw_parts(template, n));
                template = template.add(n);
            } else if n == 0xC0 {
                let [value, function] = *values;
                values = values.add(1);
                if function == of_str as *const () {
                    text.extend_from_slice((*(value as *const &str)).as_bytes());
                } else if function == of_string as *const () {
                    text.extend_from_slice((*(value as *const String)).as_bytes());
                }
            } else {
                break;
            }
        }
        String::from_utf8_unchecked(text)
    }
}
