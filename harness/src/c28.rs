//! C28: derived (un)marshaling of user-defined types follows the declaration.
use crate::nd;
use core::mem::size_of;
use safe_discriminant::Discriminant;
use tpm2_rs_base::{Tpm2bSimple, Tpm2bStruct};
use tpm2_rs_marshalable::{Error, Marshalable, MarshalableVariant, Tpm2bStruct, UnmarshalBuf};

const CAP: usize = 48;
/// The reference encoding.
struct W {
    b: [u8; CAP],
    n: usize,
}
impl W {
    fn new() -> W {
        W { b: [0; CAP], n: 0 }
    }
    fn put(&mut self, v: u64, width: usize) -> &mut W {
        let mut i = 0;
        while i < width {
            self.b[self.n] = (v >> (8 * (width - 1 - i))) as u8;
            self.n += 1;
            i += 1;
        }
        self
    }
}
/// Written as the reference into a destination of any length, and read back.
fn agrees<T: Marshalable>(v: &T, w: &W, same: impl Fn(&T) -> bool) {
    let mut out = [0x5A; CAP];
    let m = nd::len(CAP);
    let i = nd::idx();
    let r = v.try_marshal(&mut out[..m]);
    if m >= w.n {
        assert!(r == Ok(w.n), "encoded size");
        if i < w.n {
            assert!(out[i] == w.b[i], "encoded byte");
        } else if i < CAP {
            assert!(out[i] == 0x5A, "byte after the encoding was modified");
        }
    } else {
        assert!(r == Err(Error::UnexpectedEndOfBuffer), "destination too small");
        if i < CAP && i >= m {
            assert!(out[i] == 0x5A, "byte outside the destination was modified");
        }
    }
    let n = nd::len(CAP);
    let mut u = UnmarshalBuf::new(&w.b[..n]);
    match T::try_unmarshal(&mut u) {
        Ok(r) => {
            assert!(n >= w.n, "cut encoding was accepted");
            assert!(u.len() == n - w.n, "bytes consumed");
            assert!(same(&r), "value read back");
        }
        Err(e) => assert!(n < w.n && e == Error::UnexpectedEndOfBuffer, "well-formed encoding was rejected"),
    }
    reached!(m >= w.n && n >= w.n);
    reached!(w.n == 0 || (m < w.n && n < w.n));
}

#[derive(Marshalable, Clone, Copy, Default, PartialEq)]
struct Point {
    x: u16,
    y: i8,
}
#[derive(Marshalable, Clone, Copy, PartialEq)]
struct Pair(u32, Point, u8);
#[derive(Marshalable, Clone, Copy, PartialEq)]
struct Nothing;
#[derive(Marshalable, Clone, Copy, PartialEq)]
struct Record {
    a: u64,
    unit: (),
    points: [Point; 2],
    raw: [u8; 3],
    nothing: Nothing,
    pair: Pair,
    words: [u16; 2],
    z: i32,
}
fn point(w: &mut W) -> Point {
    let p = Point { x: nd::u16(), y: nd::u8() as i8 };
    w.put(p.x as u64, 2).put(p.y as u8 as u64, 1);
    p
}
fn pair(w: &mut W) -> Pair {
    let a = nd::u32();
    w.put(a as u64, 4);
    let p = point(w);
    let b = nd::u8();
    w.put(b as u64, 1);
    Pair(a, p, b)
}
harness! {
    record [50] {
        let mut w = W::new();
        let a = nd::u64();
        w.put(a, 8);
        let points = [point(&mut w), point(&mut w)];
        let raw = nd::bytes::<3>();
        w.put(raw[0] as u64, 1).put(raw[1] as u64, 1).put(raw[2] as u64, 1);
        let pair = pair(&mut w);
        let words = [nd::u16(), nd::u16()];
        w.put(words[0] as u64, 2).put(words[1] as u64, 2);
        let z = nd::u32();
        w.put(z as u64, 4);
        let v = Record { a, unit: (), points, raw, nothing: Nothing, pair, words, z: z as i32 };
        agrees(&v, &w, |r| *r == v);
    }
    tuple [50] {
        let mut w = W::new();
        let v = pair(&mut w);
        agrees(&v, &w, |r| *r == v);
        agrees(&Nothing, &W::new(), |_| true);
    }
}

/// Two arrays with their own lengths, of different widths.
#[derive(Marshalable, Clone, Copy)]
struct Lists {
    m: u8,
    before: u16,
    #[marshalable(length=m)]
    points: [Point; 3],
    count: u32,
    #[marshalable(length=count)]
    words: [u32; 2],
    after: u8,
}
/// The length fields both come first, in the other order.
#[derive(Marshalable, Clone, Copy)]
struct Crossed {
    n: u16,
    m: u16,
    #[marshalable(length=m)]
    a: [u8; 4],
    #[marshalable(length=n)]
    b: [u16; 3],
}
fn lists(m: usize, n: usize) {
    let mut w = W::new();
    let before = nd::u16();
    w.put(m as u64, 1).put(before as u64, 2);
    let mut points = [Point { x: 7, y: 7 }; 3];
    let mut i = 0;
    while i < m {
        points[i] = point(&mut w);
        i += 1;
    }
    w.put(n as u64, 4);
    let mut words = [9; 2];
    i = 0;
    while i < n {
        words[i] = nd::u32();
        w.put(words[i] as u64, 4);
        i += 1;
    }
    let after = nd::u8();
    w.put(after as u64, 1);
    let v = Lists { m: m as u8, before, points, count: n as u32, words, after };
    agrees(&v, &w, |r| {
        let mut ok = r.m == v.m && r.before == before && r.count == v.count && r.after == after;
        let mut i = 0;
        while i < 3 {
            ok &= r.points[i] == if i < m { points[i] } else { Point::default() };
            i += 1;
        }
        ok && r.words[0] == if n > 0 { words[0] } else { 0 } && r.words[1] == if n > 1 { words[1] } else { 0 }
    });
}
fn crossed(n: usize, m: usize) {
    let mut w = W::new();
    w.put(n as u64, 2).put(m as u64, 2);
    let mut a = [1; 4];
    let mut b = [2; 3];
    let mut i = 0;
    while i < m {
        a[i] = nd::u8();
        w.put(a[i] as u64, 1);
        i += 1;
    }
    i = 0;
    while i < n {
        b[i] = nd::u16();
        w.put(b[i] as u64, 2);
        i += 1;
    }
    let v = Crossed { n: n as u16, m: m as u16, a, b };
    agrees(&v, &w, |r| {
        let mut ok = r.n == v.n && r.m == v.m;
        let mut i = 0;
        while i < 4 {
            ok &= r.a[i] == if i < m { a[i] } else { 0 };
            ok &= i > 2 || r.b[i] == if i < n { b[i] } else { 0 };
            i += 1;
        }
        ok
    });
}
harness! {
    lists_none [50] { lists(0, 0); }
    lists_some [50] { lists(1, 2); }
    lists_more [50] { lists(2, 1); }
    lists_full [50] { lists(3, 2); }
    crossed_a [50] { crossed(0, 4); crossed(3, 0); }
    crossed_b [50] { crossed(2, 1); crossed(3, 4); }
    /// A length above the capacity is refused, read or written, and never panics.
    lengths [50] {
        let (m, n) = (nd::u8(), nd::u32());
        let v = Lists { m, before: 0, points: [Point::default(); 3], count: n, words: [0; 2], after: 0 };
        let mut out = [0; CAP];
        let r = v.try_marshal(&mut out);
        if m <= 3 && n <= 2 {
            assert!(r == Ok(8 + 3 * m as usize + 4 * n as usize), "encoded size");
        } else {
            assert!(r == Err(Error::ArrayLengthExceeded), "length above the capacity was written");
        }
        reached!(r.is_ok());
        reached!(n > 2 && m <= 3);
    }
    /// Whatever is read, it is consistent.
    any_lists [50] {
        let b = nd::bytes::<26>();
        let n = nd::len(26);
        let mut u = UnmarshalBuf::new(&b[..n]);
        match Lists::try_unmarshal(&mut u) {
            Ok(v) => {
                assert!(v.m <= 3 && v.count <= 2, "length above the capacity was read");
                assert!(v.m == b[0], "length read");
                assert!(n - u.len() == 8 + 3 * v.m as usize + 4 * v.count as usize, "bytes consumed");
                let used = n - u.len();
                assert!(v.after == b[used - 1], "field after the arrays");
                reached!();
            }
            Err(e) => {
                assert!(n < 3 || b[0] <= 3 || e == Error::ArrayLengthExceeded, "error for a length above the capacity");
                reached!(n == 26);
            }
        }
    }
}

const BASE: u16 = 0x40;
#[repr(C, u16)]
#[derive(Marshalable, Discriminant, Clone, Copy, PartialEq)]
enum Shape {
    Dot(Point) = 0x0010,
    Line(Point, Point) = BASE + 2,
    Word(u32) = 0x0100,
    Inner(Kind, u8) = 0xFFFF,
}
#[repr(C, u8)]
#[derive(Marshalable, Discriminant, Clone, Copy, PartialEq)]
enum Kind {
    Byte(u8) = 1,
    Empty(()) = 2,
    Long(u64) = 0x80,
}
fn kind(w: &mut W, k: usize) -> Kind {
    match k {
        0 => {
            let v = nd::u8();
            w.put(1, 1).put(v as u64, 1);
            Kind::Byte(v)
        }
        1 => {
            w.put(2, 1);
            Kind::Empty(())
        }
        _ => {
            let v = nd::u64();
            w.put(0x80, 1).put(v, 8);
            Kind::Long(v)
        }
    }
}
fn shape(w: &mut W, k: usize) -> Shape {
    match k {
        0 => {
            w.put(0x10, 2);
            Shape::Dot(point(w))
        }
        1 => {
            w.put(0x42, 2);
            Shape::Line(point(w), point(w))
        }
        2 => {
            let v = nd::u32();
            w.put(0x100, 2).put(v as u64, 4);
            Shape::Word(v)
        }
        _ => {
            w.put(0xFFFF, 2);
            let inner = kind(w, k - 3);
            let v = nd::u8();
            w.put(v as u64, 1);
            Shape::Inner(inner, v)
        }
    }
}
fn variant(k: usize) {
    let mut w = W::new();
    let v = shape(&mut w, k);
    agrees(&v, &w, |r| *r == v);
    // The member alone, with the selector kept elsewhere.
    let sel = (w.b[0] as u16) << 8 | w.b[1] as u16;
    assert!(v.discriminant() == sel, "selector of a member");
    let mut out = [0x5A; CAP];
    let m = nd::len(CAP);
    let r = v.try_marshal_variant(&mut out[..m]);
    let i = nd::idx();
    if m >= w.n - 2 {
        assert!(r == Ok(w.n - 2), "size of a member");
        if i < w.n - 2 {
            assert!(out[i] == w.b[2 + i], "byte of a member");
        }
    } else {
        assert!(r.is_err(), "destination too small");
    }
    if i < CAP && (i >= m || i >= w.n - 2) {
        assert!(out[i] == 0x5A, "byte after a member was modified");
    }
    let mut u = UnmarshalBuf::new(&w.b[2..w.n]);
    match Shape::try_unmarshal_variant(sel, &mut u) {
        Ok(r) => assert!(r == v && u.is_empty(), "member read back"),
        Err(_) => panic!("well-formed member was rejected"),
    }
    reached!(m >= w.n);
}
harness! {
    variant_a [50] { variant(0); variant(1); }
    variant_b [50] { variant(2); variant(3); }
    variant_c [50] { variant(4); variant(5); }
    /// Exactly the declared selectors are accepted, whatever follows.
    selectors [50] {
        let s = nd::u16();
        let mut b = nd::bytes::<14>();
        b[0] = (s >> 8) as u8;
        b[1] = s as u8;
        let known = s == 0x10 || s == 0x42 || s == 0x100 || s == 0xFFFF;
        match Shape::try_unmarshal(&mut UnmarshalBuf::new(&b)) {
            Ok(v) => {
                assert!(known && v.discriminant() == s, "undeclared selector was accepted");
                if let Shape::Inner(k, _) = v {
                    assert!(k.discriminant() == b[2], "undeclared selector was accepted");
                }
            }
            Err(e) => {
                assert!(!known || (s == 0xFFFF && b[2] != 1 && b[2] != 2 && b[2] != 0x80), "declared selector was rejected");
                assert!(e == Error::UnknownSelector, "error for an undeclared selector");
            }
        }
        let known = s == 0x10 || s == 0x42 || s == 0x100;
        match Shape::try_unmarshal_variant(s, &mut UnmarshalBuf::new(&b)) {
            Ok(v) => assert!(v.discriminant() == s, "undeclared selector was accepted"),
            Err(e) => assert!(!known && e == Error::UnknownSelector, "declared selector was rejected"),
        }
        reached!(s == 0x42);
        reached!(s == 0x43);
    }
}

#[derive(Marshalable, Clone, Copy)]
#[marshalable(tpm2b_simple)]
struct Blob {
    size: u16,
    data: [u8; 9],
}
#[derive(Marshalable, Tpm2bStruct, Clone, Copy)]
#[marshalable(tpm2b_simple)]
struct Boxed {
    size: u16,
    inner: [u8; size_of::<Pair>()],
}
harness! {
    blob [50] {
        let b = nd::bytes::<12>();
        let n = nd::len(12);
        match Blob::from_bytes(&b[..n]) {
            Ok(v) => {
                assert!(n <= 9, "payload above the capacity was accepted");
                assert!(v.get_size() as usize == n && v.get_buffer().len() == n && v.as_ref().len() == n, "size");
                let mut out = [0x5A; 12];
                assert!(v.try_marshal(&mut out) == Ok(n + 2) && out[0] == 0 && out[1] as usize == n, "encoding");
                let i = nd::idx();
                if i < n {
                    assert!(v.get_buffer()[i] == b[i] && out[2 + i] == b[i], "payload byte");
                }
                match Blob::try_unmarshal(&mut UnmarshalBuf::new(&out[..n + 2])) {
                    Ok(r) => {
                        assert!(r.get_size() as usize == n, "size read back");
                        assert!(i >= n || r.get_buffer()[i] == b[i], "payload byte read back");
                    }
                    Err(_) => panic!("well-formed buffer was rejected"),
                }
                reached!(n == 9);
            }
            Err(e) => {
                assert!(n > 9 && e == Error::ArrayLengthExceeded, "payload within the capacity was rejected");
                reached!();
            }
        }
        assert!(Blob::MAX_BUFFER_SIZE == 9, "capacity");
    }
    boxed [50] {
        let mut w = W::new();
        let v = pair(&mut w);
        let b = match Boxed::from_struct(&v) { Ok(b) => b, Err(_) => panic!("structure was rejected") };
        assert!(b.get_size() as usize == w.n, "size of the buffer");
        let i = nd::idx();
        if i < w.n {
            assert!(b.get_buffer()[i] == w.b[i], "payload byte");
        }
        match b.to_struct() {
            Ok(r) => assert!(r == v, "structure read back"),
            Err(_) => panic!("structure was not read back"),
        }
        // Only the payload counts.
        let n = nd::len(8);
        let c = match Boxed::from_bytes(&w.b[..n]) { Ok(c) => c, Err(_) => panic!("payload within the capacity was rejected") };
        assert!(c.to_struct().is_ok() == (n == 8), "cut structure");
        reached!(n == 8);
        reached!(n < 8);
    }
}

/// Lengths that do not fit a byte.
#[derive(Marshalable, Clone, Copy)]
struct Long {
    n: u16,
    #[marshalable(length = n)]
    a: [u8; 300],
}
fn long(n: usize) {
    let mut v = Long { n: n as u16, a: [0x33; 300] };
    let (x, y, z) = (nd::u8(), nd::u8(), nd::u8());
    v.a[0] = x;
    v.a[n / 2] = y;
    v.a[n - 1] = z;
    let mut out = [0x5A; 310];
    assert!(v.try_marshal(&mut out) == Ok(n + 2), "encoded size");
    assert!(out[0] == (n >> 8) as u8 && out[1] == n as u8, "encoded length");
    assert!(out[2] == x && out[2 + n / 2] == y && out[1 + n] == z && out[2 + n] == 0x5A && out[3] == 0x33, "encoded byte");
    reached!();
}
harness! {
    long_256 [310] { long(256); }
    long_300 [310] { long(300); }
}
