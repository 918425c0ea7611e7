// The built-in vectors and matrices, and every math library's types.
pub mod forms {
use vstd::prelude::*;
use crate::model::*;
use crate::derived::*;
use crate::bytemuck::{is_zero, zero};
// ASSUMED: the bytes of the all-zero value are zero.
#[verifier::external_body]
pub proof fn axiom_zero_bytes<T>(t: T)
    ensures is_zero(t) ==> all_zero(pod_bytes(t))
{}
// ASSUMED: sizes and alignments of the primitive types, as on the platform the checks run on, and of arrays.
#[verifier::external_body]
pub proof fn axiom_scalars()
    ensures
        vstd::layout::size_of::<f32>() == 4, vstd::layout::align_of::<f32>() == 4,
        vstd::layout::size_of::<f64>() == 8, vstd::layout::align_of::<f64>() == 8,
        vstd::layout::size_of::<i32>() == 4, vstd::layout::align_of::<i32>() == 4,
        vstd::layout::size_of::<u32>() == 4, vstd::layout::align_of::<u32>() == 4,
{}
// ASSUMED: repr(transparent); the attribute is checked for.
#[verifier::external_body]
pub proof fn axiom_bool()
    ensures
        vstd::layout::size_of::<crate::boolean::Bool>() == vstd::layout::size_of::<u32>(),
        vstd::layout::align_of::<crate::boolean::Bool>() == vstd::layout::align_of::<u32>(),
{}
#[verifier::external_body]
pub proof fn axiom_array<T, const N: usize>()
    ensures
        vstd::layout::size_of::<[T; N]>() == N * vstd::layout::size_of::<T>(),
        vstd::layout::align_of::<[T; N]>() == vstd::layout::align_of::<T>(),
{}
pub proof fn scalars()
    ensures
        vstd::layout::size_of::<f32>() == 4, vstd::layout::align_of::<f32>() == 4,
        vstd::layout::size_of::<f64>() == 8, vstd::layout::align_of::<f64>() == 8,
        vstd::layout::size_of::<i32>() == 4, vstd::layout::align_of::<i32>() == 4,
        vstd::layout::size_of::<u32>() == 4, vstd::layout::align_of::<u32>() == 4,
        vstd::layout::size_of::<crate::boolean::Bool>() == 4, vstd::layout::align_of::<crate::boolean::Bool>() == 4,
{
    axiom_scalars();
    axiom_bool();
}
// ASSUMED: the libraries' conversions to mint's types and back are inverse to each other (which component goes where is measured
// on the real libraries, by the Kani proofs of C06).
pub uninterp spec fn conv<A, B>(a: A) -> B;
#[verifier::external_body]
pub proof fn axiom_conv<A, B>(a: A)
    ensures conv::<B, A>(conv::<A, B>(a)) == a
{}
//@forms
}
