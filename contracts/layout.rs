pub mod spec {
use vstd::prelude::*;
use crate::model::*;
use super::traits::*;
// The chunks of a sequence of writable values: their chunks, one after the other.
pub open spec fn cat<T: WriteStd140>(s: Seq<T>) -> Seq<Chunk>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { cat(s.drop_last()) + s.last().parts() }
}
pub open spec fn start_of<T: WriteStd140>(s: Seq<T>, pos: int) -> int {
    if s.len() == 0 { pos } else { s[0].start(pos) }
}
// A field of this type, as the layout rules see it.
pub open spec fn fld<T: AsStd140>() -> crate::derived::Fld {
    crate::derived::Fld {
        size: vstd::layout::size_of::<T::Output>() as int,
        align: <T::Output as Std140>::ALIGNMENT as int,
        ralign: vstd::layout::align_of::<T::Output>() as int,
    }
}
pub open spec fn deref<'a, T>(s: Seq<&'a T>) -> Seq<T> { s.map_values(|x: &'a T| *x) }

// Writing the first k+1 elements is writing the first k and then element k.
pub proof fn lemma_cat_step<T: WriteStd140>(s: Seq<T>, k: int, pos: int)
    requires 0 <= k < s.len()
    ensures
        cat(s.take(k + 1)) == cat(s.take(k)) + s[k].parts(),
        emit(pos, cat(s.take(k + 1))) == emit(pos, cat(s.take(k))) + emit(pos + emit(pos, cat(s.take(k))).len(), s[k].parts()),
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    assert(s.take(k + 1).last() == s[k]);
    lemma_emit_cat(pos, cat(s.take(k)), s[k].parts());
}
// A prefix never emits more than the whole, and emits a prefix of it.
pub proof fn lemma_cat_prefix<T: WriteStd140>(s: Seq<T>, k: int, pos: int)
    requires 0 <= k <= s.len()
    ensures
        emit(pos, cat(s.take(k))).len() <= emit(pos, cat(s)).len(),
        prefix(emit(pos, cat(s.take(k))), emit(pos, cat(s))),
    decreases s.len() - k
{
    if k == s.len() {
        assert(s.take(k) =~= s);
        assert(emit(pos, cat(s)).take(emit(pos, cat(s)).len() as int) =~= emit(pos, cat(s)));
    } else {
        lemma_cat_step(s, k, pos);
        lemma_cat_prefix(s, k + 1, pos);
        let a = emit(pos, cat(s.take(k)));
        let b = emit(pos, cat(s.take(k + 1)));
        let f = emit(pos, cat(s));
        assert(f.take(b.len() as int).take(a.len() as int) =~= f.take(a.len() as int));
        assert(b.take(a.len() as int) =~= a);
    }
}
// Nothing yet, and the first element.
pub proof fn lemma_cat_first<T: WriteStd140>(s: Seq<T>, pos: int)
    ensures
        emit(pos, cat(s.take(0))) == Seq::<u8>::empty(),
        s.len() > 0 ==> {
            &&& emit(pos, cat(s.take(1))) == emit(pos, s[0].parts())
            &&& emit(pos, s[0].parts()).len() <= emit(pos, cat(s)).len()
            &&& prefix(emit(pos, s[0].parts()), emit(pos, cat(s)))
        },
{
    lemma_cat_prefix(s, 0, pos);
    if s.len() > 0 {
        lemma_cat_step(s, 0, pos);
        lemma_cat_prefix(s, 1, pos);
        assert(emit(pos, cat(s.take(0))) =~= Seq::<u8>::empty());
        assert(emit(pos, cat(s.take(1))) =~= emit(pos, s[0].parts()));
    }
}

// C10: what a sizer computes for a type is what a writer does with any value of it.
pub proof fn lemma_sizer_is_writer<T: AsStd140>(v: T, pos: int) // [C10]
    requires pos >= 0
    ensures
        v.start(pos) == pos + pad_to(pos, T::Output::ALIGNMENT as int),
        pos + emit(pos, v.parts()).len() == v.start(pos) + vstd::layout::size_of::<T::Output>(),
        emit(0, v.parts()).len() == vstd::layout::size_of::<T::Output>(),
{
    let c = Chunk { align: T::Output::ALIGNMENT as int, bytes: pod_bytes(v.spec_as()) };
    axiom_pod_len(v.spec_as());
    lemma_emit_one(pos, c);
    lemma_emit_one(0, c);
    lemma_pad(pos, T::Output::ALIGNMENT as int);
    lemma_pad(0, T::Output::ALIGNMENT as int);
}

// C14: the elements of a slice start one stride apart: size rounded up to the alignment.
pub open spec fn stride<T: AsStd140>() -> int {
    let n = vstd::layout::size_of::<T::Output>() as int;
    n + pad_to(n, T::Output::ALIGNMENT as int)
}
pub proof fn lemma_stride<T: AsStd140>(s: Seq<T>, k: int, pos: int) // [C14]
    requires 0 <= k < s.len(), pos >= 0, T::Output::ALIGNMENT > 0
    ensures
        // where element k goes after the ones before it
        s[k].start(pos + emit(pos, cat(s.take(k))).len()) == s[0].start(pos) + k * stride::<T>(),
        pos + emit(pos, cat(s.take(k + 1))).len() == s[0].start(pos) + k * stride::<T>() + vstd::layout::size_of::<T::Output>(),
    decreases k
{
    let a = T::Output::ALIGNMENT as int;
    let n = vstd::layout::size_of::<T::Output>() as int;
    let p = pos + emit(pos, cat(s.take(k))).len();
    let s0 = pos + pad_to(pos, a);
    lemma_pad(pos, a);
    lemma_pad(n, a);
    lemma_cat_step(s, k, pos);
    lemma_sizer_is_writer(s[k], p);
    if k == 0 {
        assert(s.take(0) =~= Seq::empty());
        assert(cat(s.take(0)) =~= Seq::<Chunk>::empty());
        assert(p == pos);
        assert(0 * stride::<T>() == 0);
    } else {
        lemma_stride(s, k - 1, pos);
        let st = stride::<T>();
        assert(s.take(k - 1 + 1) =~= s.take(k));
        assert(p == s0 + (k - 1) * st + n);
        // s0 and the stride are multiples of a
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s0, a);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n + pad_to(n, a), a);
        let q = s0 / a;
        let w = st / a;
        assert(s0 == q * a) by (nonlinear_arith) requires s0 == a * (s0 / a) + s0 % a, s0 % a == 0, q == s0 / a;
        assert(st == w * a) by (nonlinear_arith) requires st == a * (st / a) + st % a, st % a == 0, w == st / a;
        assert(p == n + (q + (k - 1) * w) * a) by (nonlinear_arith) requires p == s0 + (k - 1) * st + n, s0 == q * a, st == w * a;
        lemma_pad_period(n, a, q + (k - 1) * w);
        assert(p + pad_to(p, a) == s0 + (k - 1) * st + st);
        assert((k - 1) * st + st == k * st) by (nonlinear_arith);
    }
}
}
pub mod traits {
use vstd::prelude::*;
use crate::model::*;
use super::spec::*;
broadcast use crate::model::group_model;
//@extract std140/traits
}
pub mod writer {
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use crate::model::*;
use super::spec::*;
broadcast use crate::model::group_model;
//@extract std140/writer
}
pub mod sizer {
use vstd::prelude::*;
use crate::model::*;
broadcast use crate::model::axiom_size_of_val;
//@extract std140/sizer
}
//@begin leaf std140/primitives bool
pub use self::primitives::*;
pub mod primitives {
use vstd::prelude::*;
use vstd::std_specs::convert::FromSpec;
use crate::model::*;
use crate::boolean::word;
// The scalars meet what the traits ask of a form, with the alignment GLSL gives them.
pub proof fn lemma_scalars() // [C03]
    ensures
        <f32 as Std140>::ALIGNMENT == 4 && <i32 as Std140>::ALIGNMENT == 4 && <u32 as Std140>::ALIGNMENT == 4 && <Bool as Std140>::ALIGNMENT == 4,
        <f64 as Std140>::ALIGNMENT == 8,
{}
// A bool survives, and is its word.
pub proof fn lemma_bool(v: bool, b: Bool) // [C07]
    ensures
        bool::spec_from(v.spec_as()) == v,
        word(v.spec_as()) == (if v { 1u32 } else { 0u32 }),
        bool::spec_from(b) == (word(b) != 0),
{
    crate::boolean::lemma_bool(v, b);
}
//@extract std140/primitives
}
//@end leaf
