//! C17 protobuf primitives against the wire-format rules.
use crate::nd;
use measured_prometheus_protobuf::encoding::{self, WireType};

/// Reads what was written; the number of bytes read is symbolic only inside
/// one varint.
struct Dec<'a>(&'a [u8]);
impl Dec<'_> {
    /// the next varint and its length
    fn varint(&mut self) -> (u64, usize) {
        let (mut v, mut done, mut n) = (0u128, false, 0);
        macro_rules! step {
            ($($i:literal)*) => {$(
                if !done {
                    let b = self.0[$i];
                    v |= ((b & 0x7f) as u128) << (7 * $i);
                    n = $i + 1;
                    done = b < 0x80;
                    assert!($i == 0 || !done || b != 0, "shortest form");
                }
            )*};
        }
        step!(0 1 2 3 4 5 6 7 8 9);
        assert!(done, "a varint has at most ten bytes");
        assert!(v >> 64 == 0, "a varint has at most 64 bits");
        self.0 = &self.0[n..];
        (v as u64, n)
    }
}
/// room for one field
struct Buf<const N: usize>([u8; N]);
impl<const N: usize> Buf<N> {
    fn new() -> Self {
        Buf([0; N])
    }
    /// what `f` wrote
    fn fill(&mut self, f: impl FnOnce(&mut &mut [u8])) -> &[u8] {
        let mut out: &mut [u8] = &mut self.0;
        f(&mut out);
        let n = N - out.len();
        &self.0[..n]
    }
}
fn tag() -> u32 {
    let t = nd::u32();
    nd::assume(t >= 1 && t < 1 << 29);
    t
}
fn key(d: &mut Dec<'_>, tag: u32, wire: u64) -> usize {
    let (k, n) = d.varint();
    assert!(k == (tag as u64) << 3 | wire, "field number and wire type");
    assert!(n == encoding::key_len(tag), "announced length of a key");
    n
}
fn text(b: &[u8]) -> &str {
    unsafe { core::str::from_utf8_unchecked(b) }
}
/// a string field of the given length, first and last byte arbitrary
fn string<const N: usize, const M: usize>() {
    let mut b = [b'x'; N];
    let (x, y) = (nd::u8(), nd::u8());
    nd::assume(x < 0x80 && y < 0x80);
    if N > 0 {
        b[N - 1] = y;
        b[0] = x;
    }
    let s = text(&b);
    let t = tag();
    let mut buf = Buf::<M>::new();
    let out = buf.fill(|b| encoding::string::encode(t, s, b));
    assert!(out.len() == encoding::string::encoded_len(t, s), "announced length of a string");
    let mut d = Dec(out);
    key(&mut d, t, 2);
    let (n, _) = d.varint();
    assert!(n as usize == N && d.0.len() == N);
    if N > 0 {
        let i = nd::below(N);
        assert!(d.0[0] == b[0] && d.0[N - 1] == b[N - 1] && d.0[i] == b[i]);
    }
}

proof! {
[] 11 fn c17_varint() {
    let v = nd::u64();
    let mut out = Vec::with_capacity(16);
    encoding::encode_varint(v, &mut out);
    let len = out.len();
    let mut d = Dec(&out);
    assert!(d.varint() == (v, len), "a varint decodes to its value");
    assert!(encoding::encoded_len_varint(v) == len, "announced length of a varint");
    witness!(len == 10, "ten bytes");
    witness!(len == 1, "one byte");
    core::mem::forget(out);
}
[] 11 fn c17_slice() {
    // into a slice which has exactly the room announced
    let v = nd::u64();
    let mut b = [0x55u8; 12];
    let n = encoding::encoded_len_varint(v);
    assert!(n >= 1 && n <= 10);
    let mut out: &mut [u8] = &mut b[12 - n..];
    encoding::encode_varint(v, &mut out);
    assert!(out.is_empty());
    let mut d = Dec(&b[12 - n..]);
    assert!(d.varint() == (v, n));
    assert!(b[0] == 0x55 && b[1] == 0x55);
}
[] 11 fn c17_key() {
    let t = tag();
    let (w, n) = match nd::below(3) {
        0 => (WireType::Varint, 0),
        1 => (WireType::SixtyFourBit, 1),
        _ => (WireType::LengthDelimited, 2),
    };
    let mut buf = Buf::<20>::new();
    let out = buf.fill(|b| encoding::encode_key(t, w, b));
    let mut d = Dec(out);
    key(&mut d, t, n);
    assert!(d.0.is_empty());
}
[] 11 fn c17_int32() {
    let (t, v) = (tag(), nd::i32());
    let mut buf = Buf::<20>::new();
    let out = buf.fill(|b| encoding::int32::encode(t, &v, b));
    let mut d = Dec(out);
    key(&mut d, t, 0);
    // negative numbers are sign extended to 64 bits
    assert!(d.varint().0 == v as i64 as u64);
    assert!(d.0.is_empty());
}
[] 11 fn c17_double() {
    let (t, v) = (tag(), nd::u64());
    let mut buf = Buf::<20>::new();
    let out = buf.fill(|b| encoding::double::encode(t, &f64::from_bits(v), b));
    assert!(out.len() == encoding::double::encoded_len(t, &f64::from_bits(v)));
    let mut d = Dec(out);
    key(&mut d, t, 1);
    assert!(d.0.len() == 8);
    let mut b = [0; 8];
    b.copy_from_slice(d.0);
    assert!(u64::from_le_bytes(b) == v);
}
[] 11 fn c17_string_0() { string::<0, 10>(); }
[] 11 fn c17_string_1() { string::<1, 11>(); }
[] 11 fn c17_string_127() { string::<127, 137>(); }
[] 11 fn c17_string_128() { string::<128, 138>(); }
[] 11 fn c17_string_16384_thorough() { string::<16384, 16394>(); }
[] 11 fn c17_string_len() {
    // the announced length of strings of any length
    static BIG: [u8; 70000] = [b'x'; 70000];
    let n = nd::below(70000);
    let t = tag();
    let mut buf = Buf::<20>::new();
    let out = buf.fill(|b| {
        encoding::encode_key(t, WireType::LengthDelimited, b);
        encoding::encode_varint(n as u64, b);
    });
    let want = out.len() + n;
    assert!(encoding::string::encoded_len(t, text(&BIG[..n])) == want);
}
}
