//! What is checked of one derived struct: used by the generated shapes (vlib/shapes.py).
use crate::nd;
use crate::structs::*;
use crevice::std140::{self, DynamicUniform, Std140, WriteStd140};
use crevice::std430::{self, Std430, WriteStd430};

pub use crate::conv::{padding, placement, round_trip, views};
pub use crate::layout::{derived140, derived430};
pub use crate::misc::described;

macro_rules! writes {
    ($f:ident, $m:ident, $as:ident, $tr:ident, $wr:ident, $to:ident, $size:ident, $size_static:ident) => {
        /// Writers, sizers and sizes, at any position.
        pub fn $f<T: Fld>() {
            let a = <<T as $as>::Output as $tr>::ALIGNMENT;
            let before = nd::below(40);
            let mut out = vec![0xEEu8; 0];
            let mut w = $m::Writer::new(&mut out);
            let mut z = $m::Sizer::new();
            for _ in 0..before {
                let _ = w.write(&Raw::<1, 1>([0xEE]));
                z.add::<Raw<1, 1>>();
            }
            let (v, v2) = (T::nd(), T::nd());
            let (b, b2) = (v.$to(), v2.$to());
            let (b, b2) = (b.as_bytes(), b2.as_bytes());
            let at = w.write(&v).unwrap_or(usize::MAX);
            let at2 = w.write(&v2).unwrap_or(usize::MAX);
            let len = w.len();
            let want = crate::spec::up(before, a);
            let want2 = crate::spec::up(want + b.len(), a);
            check!(at == want && at2 == want2, "post: values start at the next multiple of their alignment");
            check!(z.add::<T>() == want && z.add::<T>() == want2 && z.len() == len, "post: sizer agrees with the writer");
            check!(len == out.len() && len == want2 + b2.len(), "post: length is the number of bytes sent");
            nd::same_bytes(&out[want..want + b.len()], b);
            nd::same_bytes(&out[want2..], b2);
            check!(out[before..want].iter().chain(&out[want + b.len()..want2]).all(|x| *x == 0), "post: gaps are zero");
            check!(T::$size_static() == b.len() && v.$size() == b.len(), "post: reported sizes are the bytes sent");
            let s = [v, v2];
            let mut out2 = Vec::new();
            let mut w = $m::Writer::new(&mut out2);
            for _ in 0..before {
                let _ = w.write(&Raw::<1, 1>([0xEE]));
            }
            check!(matches!(w.write(&s[..]), Ok(p) if p == want), "post: a slice starts where its first element does");
            nd::same_bytes(&out2, &out);
            if before == 0 {
                check!(s[..].$size() == len, "post: size of a slice is the bytes sent");
            }
        }
    };
}
writes!(writes140, std140, AsStd140, Std140, WriteStd140, as_std140, std140_size, std140_size_static);
writes!(writes430, std430, AsStd430, Std430, WriteStd430, as_std430, std430_size, std430_size_static);

/// Dynamic-uniform wrapping.
pub fn dynamic<T: Fld>() {
    let v = T::nd();
    let inner = v.as_std140();
    let a = <T as AsStd140>::Output::ALIGNMENT;
    type D<T> = <DynamicUniform<T> as AsStd140>::Output;
    let d = DynamicUniform(v);
    let form = d.as_std140();
    check!(<D<T> as Std140>::ALIGNMENT == a.max(256), "post: alignment is the larger of 256 and the inner one");
    nd::same_bytes(form.as_bytes(), inner.as_bytes());
    check!(DynamicUniform::<T>::from_std140(form).0.same(&d.0), "post: decodes to the inner value");
}
