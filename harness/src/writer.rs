//! C08 - C11: histories of writes, sizers and failing sinks. The functions contracts in
//! /verif/contracts decide these properties without bounds; the harnesses here execute the same
//! contracts on the real code: natively to find a failing input for an obligation that fails, and
//! under Kani, exhaustively for short histories, as a bounded stand-in.
use crate::structs::*;
use core::mem::size_of;
use crevice::std140::{self, DynamicUniform, Std140, WriteStd140};
use crevice::std430::{self, Std430, WriteStd430};
use std::cell::RefCell;
use std::io::{self, Write};

/// A byte string of bounded length. Under Kani only one byte, at an arbitrary fixed index, is kept.
#[cfg(not(kani))]
pub struct Buf {
    b: Vec<u8>,
    pub n: usize,
}
#[cfg(not(kani))]
impl Buf {
    pub fn new() -> Self {
        Buf { b: Vec::new(), n: 0 }
    }
    pub fn push(&mut self, s: &[u8]) {
        self.b.extend_from_slice(s);
        self.n = self.b.len();
    }
    pub fn zeros(&mut self, n: usize) {
        self.b.resize(self.n + n, 0);
        self.n = self.b.len();
    }
    /// `self` is a prefix of `all`.
    pub fn is_prefix(&self, all: &Buf) {
        check!(self.n <= all.n, "post: no more bytes than the successful write sends");
        crate::nd::same_bytes(&self.b, &all.b[..self.n]);
    }
    pub fn same(&self, all: &Buf) {
        crate::nd::same_bytes(&self.b, &all.b);
    }
}
#[cfg(kani)]
pub struct Buf {
    at: u8,
    pub n: usize,
}
#[cfg(kani)]
static mut WATCH: usize = 0;
#[cfg(kani)]
static mut KIND: [usize; 2] = [0; 2];
#[cfg(kani)]
impl Buf {
    pub fn new() -> Self {
        Buf { at: 0, n: 0 }
    }
    pub fn push(&mut self, s: &[u8]) {
        let k = unsafe { WATCH };
        if k >= self.n && k - self.n < s.len() {
            self.at = s[k - self.n];
        }
        self.n += s.len();
    }
    pub fn zeros(&mut self, n: usize) {
        self.n += n;
    }
    pub fn is_prefix(&self, all: &Buf) {
        check!(self.n <= all.n, "post: no more bytes than the successful write sends");
        check!(unsafe { WATCH } >= self.n || self.at == all.at, "post: bytes agree");
    }
    pub fn same(&self, all: &Buf) {
        check!(self.n == all.n, "post: byte lengths agree");
        check!(self.at == all.at, "post: bytes agree");
    }
}
/// The type of the i-th write.
fn kind(_i: usize, _n: usize) -> usize {
    #[cfg(kani)]
    return unsafe { KIND[_i] };
    #[cfg(not(kani))]
    {
        // The largest ones only now and then.
        let k = nd::below(_n);
        if k >= RARE && nd::below(4) != 0 {
            return k - RARE;
        }
        k
    }
}
impl Buf {
    /// The contract of one write: zeros up to the next multiple of `align`, then the bytes.
    /// Returns the offset of the first byte.
    pub fn put(&mut self, align: usize, bytes: &[u8]) -> usize {
        self.zeros(crate::spec::up(self.n, align) - self.n);
        let at = self.n;
        self.push(bytes);
        at
    }
}

/// A sink that records what it receives, takes at most `piece` bytes at a time (0: everything),
/// and after `budget` bytes starts to fail in manner `how`.
pub struct Sink {
    pub got: Buf,
    pub piece: usize,
    pub budget: usize,
    pub how: u8,
    pub interrupt: bool,
    pub failed: bool,
}
impl Sink {
    pub fn reliable() -> RefCell<Sink> {
        let piece = if nd::native() { [0, 0, 0, 1, 2, 3, 7, 1000][nd::below(8)] } else { 0 };
        let interrupt = nd::native() && nd::boolean();
        RefCell::new(Sink { got: Buf::new(), piece, budget: usize::MAX, how: 0, interrupt, failed: false })
    }
    pub fn failing(budget: usize) -> RefCell<Sink> {
        let s = Self::reliable();
        s.borrow_mut().budget = budget;
        s.borrow_mut().how = nd::below(nd::bound(4, 4 + ERRORS.len())) as u8;
        s
    }
    fn n(s: &RefCell<Sink>) -> usize {
        s.borrow().got.n
    }
}
/// Kinds of failure that code may be tempted to treat in its own way.
const ERRORS: [io::ErrorKind; 12] = [
    io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut, io::ErrorKind::WriteZero, io::ErrorKind::UnexpectedEof,
    io::ErrorKind::InvalidInput, io::ErrorKind::OutOfMemory, io::ErrorKind::StorageFull, io::ErrorKind::ConnectionReset,
    io::ErrorKind::NotConnected, io::ErrorKind::PermissionDenied, io::ErrorKind::Unsupported, io::ErrorKind::InvalidData,
];
pub struct Rec<'a>(pub &'a RefCell<Sink>);
impl Write for Rec<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        if buf.is_empty() {
            return Ok(0);
        }
        if s.interrupt && s.got.n % 5 == 3 {
            // Not a failure: write_all has to try again.
            s.interrupt = false;
            return Err(io::ErrorKind::Interrupted.into());
        }
        if s.budget == 0 {
            s.failed = true;
            return match s.how {
                0 => Err(io::ErrorKind::Other.into()),
                1 => Ok(0),
                2 => Err(io::ErrorKind::BrokenPipe.into()),
                k if k > 3 => Err(io::Error::new(ERRORS[k as usize - 4], "the sink's own")),
                _ => Err(io::Error::from_raw_os_error(28)),
            };
        }
        let mut n = if buf.len() < s.budget { buf.len() } else { s.budget };
        if s.piece != 0 && s.piece < n {
            n = s.piece;
        }
        s.got.push(&buf[..n]);
        s.budget -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn is_that_error(e: &io::Error, how: u8) -> bool {
    match how {
        0 => e.kind() == io::ErrorKind::Other,
        1 => e.kind() == io::ErrorKind::WriteZero,
        2 => e.kind() == io::ErrorKind::BrokenPipe,
        k if k > 3 => e.kind() == ERRORS[k as usize - 4] && e.to_string() == "the sink's own",
        _ => e.raw_os_error() == Some(28),
    }
}
st!(Odd { a: f32, b: mint::Vector3<f32>, c: bool });
st!(Pair { a: f32, b: f32 });

/// An iterator that says as little or as much about its length as an iterator may.
pub struct Hinted<I> {
    inner: I,
    less: usize,
    more: Option<usize>,
}
impl<I: ExactSizeIterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.inner.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.inner.len();
        (n.saturating_sub(self.less), self.more.map(|m| n.saturating_add(m)))
    }
}
fn hinted<T>(v: Vec<T>) -> Hinted<std::vec::IntoIter<T>> {
    let (mut less, mut more) = (0, Some(0));
    if nd::native() {
        less = [0, 0, 1, 2, usize::MAX][nd::below(5)];
        more = [Some(0), None, Some(1), Some(usize::MAX)][nd::below(4)];
    }
    Hinted { inner: v.into_iter(), less, more }
}

/// A user-defined writable that writes several values.
pub struct Multi {
    pub a: u32,
    pub b: [mint::Vector3<f32>; 2],
    pub n: usize,
    pub tail: [Raw<3, 1>; 3],
    pub m: usize,
}
impl Multi {
    pub fn nd() -> Self {
        Multi { a: nd::u32(), b: [Fld::nd(), Fld::nd()], n: nd::below(3), tail: [Fld::nd(), Fld::nd(), Fld::nd()], m: nd::below(4) }
    }
}
impl WriteStd140 for Multi {
    fn write_std140<W: Write>(&self, w: &mut std140::Writer<W>) -> io::Result<usize> {
        let at = w.write(&self.a)?;
        w.write(&self.b[..self.n])?;
        w.write(&self.tail[..self.m])?;
        Ok(at)
    }
}
impl WriteStd430 for Multi {
    fn write_std430<W: Write>(&self, w: &mut std430::Writer<W>) -> io::Result<usize> {
        let at = w.write(&self.a)?;
        w.write(&self.b[..self.n])?;
        w.write(&self.tail[..self.m])?;
        Ok(at)
    }
}

const KINDS: usize = 20;
const RARE: usize = 16;
/// Calls `$f::<T>(args)` for a type chosen by `$k`.
macro_rules! pick {
    ($k:expr, $f:ident($($a:expr),*)) => {
        match $k {
            0 => $f::<f32>($($a),*),
            1 => $f::<mint::Vector3<f32>>($($a),*),
            2 => $f::<Raw<3, 1>>($($a),*),
            _ if !nd::native() => $f::<Raw<5, 8>>($($a),*),
            3 => $f::<Raw<5, 8>>($($a),*),
            4 => $f::<f64>($($a),*),
            5 => $f::<Odd>($($a),*),
            6 => $f::<Raw<20, 64>>($($a),*),
            7 => $f::<Raw<0, 16>>($($a),*),
            8 => $f::<mint::ColumnMatrix3<f64>>($($a),*),
            9 => $f::<Raw<1, 1024>>($($a),*),
            10 => $f::<mint::Vector2<bool>>($($a),*),
            11 => $f::<Nest2>($($a),*),
            12 => $f::<Raw<300, 4>>($($a),*),
            13 => $f::<mint::Vector3<f64>>($($a),*),
            14 => $f::<Pair>($($a),*),
            16 => $f::<Raw<5000, 4>>($($a),*),
            17 => $f::<Raw<7, 65536>>($($a),*),
            18 => $f::<Raw<2, 2>>($($a),*),
            19 => $f::<Raw<70000, 32>>($($a),*),
            _ => $f::<Empty>($($a),*),
        }
    };
}

macro_rules! histories {
    ($m:ident, $name:ident, $tr:ident, $as:ident, $wr:ident, $as_fn:ident, $write_fn:ident, $size_fn:ident, $size_static:ident) => {
        pub mod $name {
            use super::*;
            use crevice::$m::{Sizer, Writer};

            fn kinds() -> usize {
                nd::bound(4, KINDS)
            }

            /// C08: writes one value and checks the contract of the write.
            fn one<T: Fld>(w: &mut Writer<Rec>, s: &RefCell<Sink>, m: &mut Buf) {
                let v = T::nd();
                let form = v.$as_fn();
                let at = m.put(<T as $as>::Output::ALIGNMENT, bytemuck::bytes_of(&form));
                let r = match nd::below(3) {
                    0 => w.write(&v),
                    1 => w.$write_fn(&form),
                    _ => v.$write_fn(w),
                };
                check!(r.is_ok(), "post: a write to a reliable sink succeeds");
                if let Ok(o) = r {
                    check!(o == at, "post: returned offset is where the value starts");
                }
                check!(w.len() == m.n, "post: length is the number of bytes sent");
                check!(Sink::n(s) == m.n, "post: exactly padding and value were sent");
            }
            pub fn c08() {
                let s = Sink::reliable();
                let mut m = Buf::new();
                let mut w = Writer::new(Rec(&s));
                check!(w.len() == 0, "post: a new writer is empty");
                let n = if nd::native() { nd::below(12) } else { 2 };
                let mut i = 0;
                while i < n {
                    pick!(kind(i, kinds()), one(&mut w, &s, &mut m));
                    i += 1;
                }
                s.borrow().got.same(&m);
            }

            /// C09: writes a sequence in one of several ways, and each element on its own to a second writer.
            fn seq<T: Fld>(w: &mut Writer<Rec>, s: &RefCell<Sink>, w2: &mut Writer<Rec>, s2: &RefCell<Sink>) {
                let n = match nd::below(8) {
                    0 => nd::below(300),
                    1 => 0,
                    2 => 1,
                    3 => 1 << nd::below(9),
                    _ => nd::below(8),
                };
                let bytes = size_of::<<T as $as>::Output>().max(<T as $as>::Output::ALIGNMENT);
                let n = if bytes > 1000 { n % 8 } else { n };
                let way = nd::below(4);
                let v: Vec<T> = if bytes <= 16 && nd::below(500) == 333 {
                    let n = nd::length(70_000);
                    nd::aside(|| (0..n).map(|_| T::nd()).collect())
                } else {
                    (0..n).map(|_| T::nd()).collect()
                };
                let mut first = w2.len();
                for (i, x) in v.iter().enumerate() {
                    let r = w2.write(x);
                    if let (0, Ok(at)) = (i, &r) {
                        first = *at;
                    }
                    if r.is_err() {
                        // Not a matter of sequences.
                        nd::assume(false);
                    }
                }
                let r = match way {
                    0 => w.write_iter(hinted(v)),
                    1 => w.write(v.as_slice()),
                    2 => w.write_iter(v),
                    _ => slice_deprecated(w, &v),
                };
                same_effect(r, first, w, s, w2, s2);
            }
            fn same_effect(r: io::Result<usize>, first: usize, w: &Writer<Rec>, s: &RefCell<Sink>, w2: &Writer<Rec>, s2: &RefCell<Sink>) {
                check!(r.is_ok(), "post: a write to a reliable sink succeeds");
                if let Ok(o) = r {
                    check!(o == first, "post: returned offset is where the first element starts");
                }
                check!(w.len() == w2.len(), "post: the length is as after writing each element");
                check!(Sink::n(s) == Sink::n(s2), "post: as many bytes as writing each element");
            }
            histories!(@slice $m);
            fn multi(w: &mut Writer<Rec>, s: &RefCell<Sink>, w2: &mut Writer<Rec>, s2: &RefCell<Sink>) {
                let n = nd::below(4);
                let v: Vec<Multi> = (0..n).map(|_| Multi::nd()).collect();
                let mut first = w2.len();
                for (i, x) in v.iter().enumerate() {
                    match w2.write(&x.a) {
                        Ok(at) if i == 0 => first = at,
                        Ok(_) => {}
                        Err(_) => nd::assume(false),
                    }
                    for y in &x.b[..x.n] {
                        if w2.write(y).is_err() {
                            nd::assume(false);
                        }
                    }
                    for y in &x.tail[..x.m] {
                        if w2.write(y).is_err() {
                            nd::assume(false);
                        }
                    }
                }
                let r = if nd::boolean() { w.write_iter(hinted(v)) } else { w.write(v.as_slice()) };
                same_effect(r, first, w, s, w2, s2);
            }
            #[cfg(not(kani))]
            pub fn c09() {
                let (s, s2) = (Sink::reliable(), Sink::reliable());
                let mut w = Writer::new(Rec(&s));
                let mut w2 = Writer::new(Rec(&s2));
                for _ in 0..nd::below(40) {
                    if w.write(&Raw::<1, 1>([7])).is_err() || w2.write(&Raw::<1, 1>([7])).is_err() {
                        nd::assume(false);
                    }
                }
                for _ in 0..1 + nd::below(4) {
                    if nd::below(6) == 0 {
                        multi(&mut w, &s, &mut w2, &s2);
                    } else {
                        pick!(kind(0, kinds()), seq(&mut w, &s, &mut w2, &s2));
                    }
                }
                s.borrow().got.same(&s2.borrow().got);
            }

            fn both<T: Fld>(w: &mut Writer<Rec>, z: &mut Sizer) {
                let v = T::nd();
                let a = z.add::<T>();
                let b = w.write(&v);
                check!(b.is_ok() && b.unwrap_or(0) == a, "post: sizer and writer return the same offset");
                check!(w.len() == z.len(), "post: sizer and writer report the same length");
            }
            fn sizes<T: Fld>(_: ()) {
                let v = T::nd();
                check!(T::$size_static() == fresh(&v), "post: static size is what a fresh writer sends");
                check!($wr::$size_fn(&v) == fresh(&v), "post: value size is what a fresh writer sends");
                if nd::native() {
                    let n = nd::below(6);
                    let s: Vec<T> = if size_of::<<T as $as>::Output>().max(<T as $as>::Output::ALIGNMENT) <= 16 && nd::below(500) == 333 {
                        let n = nd::length(70_000);
                        nd::aside(|| (0..n).map(|_| T::nd()).collect())
                    } else {
                        (0..n).map(|_| T::nd()).collect()
                    };
                    check!(s.as_slice().$size_fn() == fresh(s.as_slice()), "post: slice size is what a fresh writer sends");
                } else {
                    let s = [T::nd(), T::nd()];
                    let n = nd::below(3);
                    check!(s[..n].$size_fn() == fresh(&s[..n]), "post: slice size is what a fresh writer sends");
                }
            }
            fn fresh<T: $wr + ?Sized>(v: &T) -> usize {
                let s = RefCell::new(Sink { got: Buf::new(), piece: 0, budget: usize::MAX, how: 0, interrupt: false, failed: false });
                let mut w = Writer::new(Rec(&s));
                let r = w.write(v);
                check!(r.is_ok(), "post: a write to a reliable sink succeeds");
                let n = Sink::n(&s);
                n
            }
            pub fn c10_writer() {
                let s = Sink::reliable();
                let mut w = Writer::new(Rec(&s));
                let mut z = Sizer::new();
                let n = if nd::native() { nd::below(10) } else { 2 };
                let mut i = 0;
                while i < n {
                    pick!(kind(i, kinds()), both(&mut w, &mut z));
                    i += 1;
                }
            }
            pub fn c10_sizes() {
                pick!(kind(0, kinds()), sizes(()));
                if nd::native() {
                    let n = nd::below(4);
                    let v: Vec<Multi> = (0..n).map(|_| Multi::nd()).collect();
                    check!(v.as_slice().$size_fn() == fresh(v.as_slice()), "post: slice size is what a fresh writer sends");
                    let x = Multi::nd();
                    check!(x.$size_fn() == fresh(&x), "post: value size is what a fresh writer sends");
                }
            }

            /// C11: a write of one value or sequence to a sink that starts failing; the same writes to a
            /// reliable sink give what a success would have sent.
            fn fail<T: Fld>(w: &mut Writer<Rec>, s: &RefCell<Sink>, w2: &mut Writer<Rec>, s2: &RefCell<Sink>) -> bool {
                let n = nd::below(6);
                let way = nd::below(3);
                let v: Vec<T> = (0..n).map(|_| T::nd()).collect();
                let ok2 = match (n, way) {
                    (1, _) => w2.write(&v[0]).is_ok(),
                    _ => w2.write(v.as_slice()).is_ok(),
                };
                if !ok2 {
                    nd::assume(false);
                }
                let r = match (n, way) {
                    (1, _) => w.write(&v[0]),
                    (_, 0) => w.write(v.as_slice()),
                    (_, 1) => w.write_iter(hinted(v)),
                    _ => slice_deprecated(w, &v),
                };
                let got = Sink::n(s);
                check!(w.len() <= got, "post: length never exceeds what the sink received");
                let how = s.borrow().how;
                match r {
                    Ok(_) => {
                        check!(!s.borrow().failed, "post: a write that failed does not report success");
                        check!(got == Sink::n(s2), "post: a write that reports success sent everything");
                        true
                    }
                    Err(e) => {
                        check!(s.borrow().failed, "post: no error without a failing sink");
                        check!(is_that_error(&e, how), "post: the sink's own error is returned");
                        false
                    }
                }
            }
            #[cfg(not(kani))]
            pub fn c11() {
                let budget = match nd::below(4) {
                    0 => nd::below(2000),
                    1 => nd::below(80000),
                    _ => nd::below(200),
                };
                let s = Sink::failing(budget);
                let s2 = Sink::reliable();
                let mut w = Writer::new(Rec(&s));
                let mut w2 = Writer::new(Rec(&s2));
                let n = 1 + nd::below(6);
                let mut i = 0;
                let mut ok = true;
                while i < n && ok {
                    ok = pick!(kind(i, kinds()), fail(&mut w, &s, &mut w2, &s2));
                    i += 1;
                }
                s.borrow().got.is_prefix(&s2.borrow().got);
                if !ok {
                    // A sink that fails now and then: the accounting holds for the rest of the history.
                    for _ in 0..nd::below(6) {
                        s.borrow_mut().budget = nd::below(60);
                        s.borrow_mut().failed = false;
                        let before = (w.len(), Sink::n(&s));
                        let k = nd::below(kinds());
                        pick!(k, after_failure(&mut w, &s));
                        check!(w.len() >= before.0 && Sink::n(&s) >= before.1, "post: length does not go back");
                    }
                }
            }
            fn after_failure<T: Fld>(w: &mut Writer<Rec>, s: &RefCell<Sink>) {
                let v = [T::nd(), T::nd()];
                let r = w.write(&v[..nd::below(3)]);
                check!(r.is_ok() != s.borrow().failed, "post: an error exactly when the sink failed");
                check!(w.len() <= Sink::n(s), "post: length never exceeds what the sink received");
            }
            /// Writes far beyond 4 GiB, to a sink that only counts.
            pub fn far() {
                struct Count<'a>(&'a RefCell<u64>);
                impl Write for Count<'_> {
                    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
                        *self.0.borrow_mut() += b.len() as u64;
                        Ok(b.len())
                    }
                    fn flush(&mut self) -> io::Result<()> {
                        Ok(())
                    }
                }
                let n = RefCell::new(0u64);
                let mut w = Writer::new(Count(&n));
                let mut z = Sizer::new();
                type Huge = Raw<{ 1 << 19 }, 1>;
                let v: Vec<Huge> = vec![Raw([3; 1 << 19]); 1];
                for _ in 0..((1usize << 13) + 2) {
                    let at = *n.borrow();
                    check!(matches!(w.write(v.as_slice()), Ok(o) if o as u64 == at), "post: returned offset is where the value starts");
                    check!(z.add::<Huge>() as u64 == at, "post: sizer and writer return the same offset");
                    check!(w.len() as u64 == *n.borrow(), "post: length is the number of bytes sent");
                    check!(z.len() == w.len(), "post: sizer and writer report the same length");
                }
                let _ = w.write(&Raw::<1, 1>([1]));
                z.add::<Raw<1, 1>>();
                let at = *n.borrow();
                let exp = (at + 63) / 64 * 64;
                check!(matches!(w.write(&Raw::<20, 64>([1; 20])), Ok(o) if o as u64 == exp), "post: returned offset is where the value starts");
                check!(z.add::<Raw<20, 64>>() as u64 == exp, "post: sizer and writer return the same offset");
                check!(w.len() as u64 == exp + 20 && *n.borrow() == exp + 20, "post: length is the number of bytes sent");
                check!(z.len() == w.len(), "post: sizer and writer report the same length");
            }
        }
    };
    (@slice std140) => {
        #[allow(deprecated)]
        fn slice_deprecated<T: Fld>(w: &mut Writer<Rec>, v: &[T]) -> io::Result<usize> {
            w.write_slice(v)
        }
    };
    (@slice std430) => {
        fn slice_deprecated<T: Fld>(w: &mut Writer<Rec>, v: &[T]) -> io::Result<usize> {
            w.write(v)
        }
    };
}

histories!(std140, w140, Std140, AsStd140, WriteStd140, as_std140, write_std140, std140_size, std140_size_static);
histories!(std430, w430, Std430, AsStd430, WriteStd430, as_std430, write_std430, std430_size, std430_size_static);

#[cfg(kani)]
mod proofs {
    use crate::nd;
    fn set(a: usize, b: usize) {
        unsafe {
            super::WATCH = kani::any();
            super::KIND = [a, b];
        }
    }
    macro_rules! p {
        ($($l:ident $f:ident $n:ident $a:literal $b:literal $u:literal;)*) => {$(
            #[kani::proof]
            #[kani::unwind($u)]
            fn $n() { set($a, $b); super::$l::$f(); nd::reached(); }
        )*};
    }
    p! {
        w140 c08 c08_140_a 0 1 17; w140 c08 c08_140_b 2 3 17;
        w430 c08 c08_430_a 0 1 17; w430 c08 c08_430_b 2 3 17;
    }
}
