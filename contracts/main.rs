#![allow(unused_imports, dead_code, deprecated)]
use vstd::prelude::*;
verus! {
//@file model.rs
//@file derived.rs
pub mod internal {
use vstd::prelude::*;
use crate::model::*;
pub use crate::bytemuck;
// The largest of the first k elements (0 when there are none).
pub open spec fn max_upto(s: Seq<usize>, k: int) -> int
    decreases k
{
    if k <= 0 { 0 } else if max_upto(s, k - 1) >= s[k - 1] as int { max_upto(s, k - 1) } else { s[k - 1] as int }
}
pub proof fn lemma_max_upto(s: Seq<usize>, n: int, m: int)
    requires
        0 <= n <= s.len(),
        forall|k: int| 0 <= k < n ==> #[trigger] s[k] <= m,
        m == 0 || exists|k: int| 0 <= k < n && #[trigger] s[k] == m,
    ensures
        m == max_upto(s, n),
{
    lemma_upto_bounds(s, n);
}
proof fn lemma_upto_bounds(s: Seq<usize>, n: int)
    requires 0 <= n <= s.len(),
    ensures
        forall|k: int| 0 <= k < n ==> #[trigger] s[k] <= max_upto(s, n),
        max_upto(s, n) == 0 || exists|k: int| 0 <= k < n && #[trigger] s[k] == max_upto(s, n),
    decreases n
{
    if n > 0 { lemma_upto_bounds(s, n - 1); }
}
//@extract internal
}
pub mod std140 {
pub use self::{sizer::*, traits::*, writer::*};
//@layout
//@begin leaf std140/dynamic_uniform
pub use self::dynamic_uniform::*;
pub mod dynamic_uniform {
use vstd::prelude::*;
use crate::model::*;
pub closed spec fn unwrapped<T>(d: DynamicUniformStd140<T>) -> T { d.0 }
// ASSUMED: what repr(transparent) means (the attribute is checked for).
#[verifier::external_body]
pub broadcast proof fn axiom_transparent<T>(d: DynamicUniformStd140<T>)
    ensures
        #[trigger] pod_bytes(d) == pod_bytes(unwrapped(d)),
        vstd::layout::size_of::<DynamicUniformStd140<T>>() == vstd::layout::size_of::<T>(),
{}
// Wrapping and unwrapping again gives the value back, when its own form does.
pub proof fn lemma_unwrap<T: AsStd140>(v: DynamicUniform<T>) // [C12]
    requires T::spec_from(v.0.spec_as()) == v.0
    ensures <DynamicUniform<T> as AsStd140>::spec_from(v.spec_as()) == v
{}
//@extract std140/dynamic_uniform
}
//@end leaf
}
pub mod std430 {
pub use self::{sizer::*, traits::*, writer::*};
//@layout 430
}
//@begin leaf glsl
//@include glsl.rs
//@end leaf
//@begin leaf bool
// `bool` is a keyword of sorts; the crate re-exports the type at its root.
pub mod boolean {
use vstd::prelude::*;
use vstd::std_specs::convert::{FromSpec, FromSpecImpl};
pub closed spec fn word(b: Bool) -> u32 { b.0 }
impl FromSpecImpl<bool> for Bool {
    open spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(v: bool) -> Bool { Bool(if v { 1u32 } else { 0u32 }) }
}
impl FromSpecImpl<Bool> for bool {
    open spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(v: Bool) -> bool { word(v) != 0 }
}
// true and false survive; any nonzero word is true.
pub proof fn lemma_bool(v: bool, b: Bool) // [C07]
    ensures
        <bool as FromSpec<Bool>>::from_spec(<Bool as FromSpec<bool>>::from_spec(v)) == v,
        word(<Bool as FromSpec<bool>>::from_spec(v)) == (if v { 1u32 } else { 0u32 }),
        <bool as FromSpec<Bool>>::from_spec(b) == (word(b) != 0),
{}
//@extract bool
}
//@end leaf
//@begin leaf forms bool glsl std140/primitives std430/primitives
//@include forms.rs
//@end leaf
//@begin leaf derive
pub mod lifted {
//@derives
}
//@end leaf
}
fn main() {}
