// Specification vocabulary shared by all contracts. Nothing here is code under
// verification: spec functions, lemmas, and the stated assumptions about std
// and bytemuck.
pub mod model {
use vstd::prelude::*;
use vstd::std_specs::iter::*;

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExSink(std::io::Sink);

// ---- ghost state of a sink --------------------------------------------------
// What a std::io::Write has received so far, and the errors it has returned.
pub uninterp spec fn sunk<W: ?Sized>(w: &W) -> Seq<u8>;
pub uninterp spec fn errs<W: ?Sized>(w: &W) -> Seq<std::io::Error>;
// A sink type that never fails.
pub uninterp spec fn reliable<W: ?Sized>() -> bool;

// ASSUMED: std::io::sink never fails.
pub assume_specification [std::io::sink] () -> (r: std::io::Sink)
    ensures reliable::<std::io::Sink>();

// ASSUMED: what the standard library says of these.
#[verifier::external_body]
pub broadcast proof fn axiom_size_of_val<T>(t: &T)
    ensures #[trigger] vstd::layout::spec_size_of_val::<T>(t) == vstd::layout::size_of::<T>()
{}
pub assume_specification<T: core::cmp::Ord> [core::cmp::max] (a: T, b: T) -> (r: T)
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&b, &a) == core::cmp::Ordering::Less { a } else { b });
pub assume_specification<T: core::cmp::Ord> [core::cmp::min] (a: T, b: T) -> (r: T)
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&b, &a) == core::cmp::Ordering::Less { b } else { a });
pub assume_specification [usize::next_multiple_of] (a: usize, b: usize) -> (r: usize)
    requires b > 0, a + (if a % b == 0 { 0 } else { b - a % b }) <= usize::MAX
    ensures r == a + (if a % b == 0 { 0 } else { b - a % b });
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize)
    requires b > 0
    ensures r == (if a % b == 0 { a / b } else { (a / b + 1) as usize });
pub assume_specification [usize::rem_euclid] (a: usize, b: usize) -> (r: usize)
    requires b > 0
    ensures r == a % b;
pub assume_specification [usize::wrapping_neg] (a: usize) -> (r: usize)
    ensures r == (if a == 0 { 0 } else { usize::MAX - a + 1 });
pub assume_specification<T> [core::mem::replace] (a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b;

// ASSUMED: the documented contract of std::io::Write::write and write_all: a call
// that succeeds has taken the whole buffer (for write: a prefix of it), a call that fails
// has taken some prefix.
#[verifier::external_trait_specification]
pub trait ExWrite {
    type ExternalTraitSpecificationFor: std::io::Write;
    fn write(&mut self, buf: &[u8]) -> (r: std::io::Result<usize>)
        ensures
            match r {
                Ok(n) => n <= buf@.len() && sunk(final(self)) == sunk(old(self)) + buf@.take(n as int) && errs(final(self)) == errs(old(self)),
                Err(e) => sunk(final(self)) == sunk(old(self)) && errs(final(self)) == errs(old(self)).push(e),
            },
            reliable::<Self>() ==> r is Ok;
    fn write_all(&mut self, buf: &[u8]) -> (r: std::io::Result<()>)
        ensures
            match r {
                Ok(_) => sunk(final(self)) == sunk(old(self)) + buf@ && errs(final(self)) == errs(old(self)),
                Err(e) => cut(sunk(old(self)), sunk(final(self)), buf@) && errs(final(self)) == errs(old(self)).push(e),
            },
            reliable::<Self>() ==> r is Ok;
}

// `new` is `old` followed by some prefix of `full`.
pub open spec fn cut(old: Seq<u8>, new: Seq<u8>, full: Seq<u8>) -> bool {
    &&& old.len() <= new.len() <= old.len() + full.len()
    &&& new == old + full.take(new.len() - old.len())
}

// ---- alignment --------------------------------------------------------------
// Distance from pos to the next multiple of align (0 when align is 0: no constraint).
pub open spec fn pad_to(pos: int, align: int) -> int {
    if align <= 0 { 0 } else { (-pos) % align }
}

pub proof fn lemma_pad(pos: int, a: int)
    requires pos >= 0, a >= 0
    ensures
        a > 0 ==> 0 <= pad_to(pos, a) < a && (pos + pad_to(pos, a)) % a == 0,
        a > 0 ==> pad_to(pos, a) == (if pos % a == 0 { 0 } else { a - pos % a }),
        a == 0 || pos == 0 ==> pad_to(pos, a) == 0,
{
    if a > 0 && pos == 0 {
        vstd::arithmetic::div_mod::lemma_small_mod(0, a as nat);
    }
    if a > 0 {
        let q = pos / a;
        let r = pos % a;
        assert(pos == a * q + r) by (nonlinear_arith) requires a > 0, q == pos / a, r == pos % a;
        assert(0 <= r < a) by (nonlinear_arith) requires a > 0, r == pos % a;
        if r == 0 {
            assert(-pos == (-q) * a + 0) by (nonlinear_arith) requires pos == a * q + r, r == 0;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(-pos, a, -q, 0);
        } else {
            assert(-pos == (-q - 1) * a + (a - r)) by (nonlinear_arith) requires pos == a * q + r;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(-pos, a, -q - 1, a - r);
            assert(pos + (a - r) == (q + 1) * a) by (nonlinear_arith) requires pos == a * q + r;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(pos + (a - r), a, q + 1, 0);
        }
    }
}

// pad_to is the *smallest* non-negative distance to a multiple.
pub proof fn lemma_pad_smallest(pos: int, a: int, k: int)
    requires pos >= 0, a > 0, 0 <= k, (pos + k) % a == 0
    ensures pad_to(pos, a) <= k
{
    lemma_pad(pos, a);
    let p = pad_to(pos, a);
    if k < p {
        let x = (pos + k) / a;
        let y = (pos + p) / a;
        assert(pos + k == a * x) by (nonlinear_arith) requires x == (pos + k) / a, (pos + k) % a == 0, a > 0;
        assert(pos + p == a * y) by (nonlinear_arith) requires y == (pos + p) / a, (pos + p) % a == 0, a > 0;
        assert(p - k == a * (y - x)) by (nonlinear_arith) requires pos + k == a * x, pos + p == a * y;
        assert(y - x >= 1) by (nonlinear_arith) requires p - k == a * (y - x), p - k > 0, a > 0;
        assert(a * (y - x) >= a) by (nonlinear_arith) requires y - x >= 1, a > 0;
        assert(false);
    }
}

pub proof fn lemma_pad_period(pos: int, a: int, m: int)
    requires a > 0
    ensures pad_to(pos + m * a, a) == pad_to(pos, a)
{
    assert(-(pos + m * a) == a * (-m) + (-pos)) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(-m, -pos, a);
}

// ---- what a writer emits ----------------------------------------------------
pub struct Chunk { pub align: int, pub bytes: Seq<u8> }

pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }

pub open spec fn emit1(pos: int, c: Chunk) -> Seq<u8> { zeros(pad_to(pos, c.align)) + c.bytes }

// The bytes that writing the chunks one after the other from position pos produces.
pub open spec fn emit(pos: int, cs: Seq<Chunk>) -> Seq<u8>
    decreases cs.len()
{
    if cs.len() == 0 {
        Seq::<u8>::empty()
    } else {
        let h = emit(pos, cs.drop_last());
        h + emit1(pos + h.len(), cs.last())
    }
}

pub proof fn lemma_emit_cat(pos: int, a: Seq<Chunk>, b: Seq<Chunk>)
    ensures emit(pos, a + b) == emit(pos, a) + emit(pos + emit(pos, a).len(), b)
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(emit(pos, a) + emit(pos + emit(pos, a).len(), b) =~= emit(pos, a));
    } else {
        lemma_emit_cat(pos, a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(emit(pos, a + b) =~= emit(pos, a) + emit(pos + emit(pos, a).len(), b));
    }
}

pub proof fn lemma_emit_one(pos: int, c: Chunk)
    ensures emit(pos, seq![c]) == emit1(pos, c)
{
    assert(seq![c].drop_last() =~= Seq::<Chunk>::empty());
    assert(emit(pos, seq![c].drop_last()) =~= Seq::<u8>::empty());
    assert(emit(pos, seq![c]) =~= emit1(pos, c));
}

// ---- outcome of a write -----------------------------------------------------
// Success: exactly `full` went out, the position moved by as much, no error was swallowed.
pub open spec fn sent(pos0: int, sink0: Seq<u8>, errs0: Seq<std::io::Error>,
                      pos1: int, sink1: Seq<u8>, errs1: Seq<std::io::Error>, full: Seq<u8>) -> bool {
    &&& pos1 == pos0 + full.len()
    &&& sink1 == sink0 + full
    &&& errs1 == errs0
}
// Failure: a prefix of `full` went out, the position did not run ahead of it, and the
// error reported is the one the sink returned.
pub open spec fn failed(pos0: int, sink0: Seq<u8>, errs0: Seq<std::io::Error>,
                        pos1: int, sink1: Seq<u8>, errs1: Seq<std::io::Error>, full: Seq<u8>, e: std::io::Error) -> bool {
    &&& cut(sink0, sink1, full)
    &&& pos0 <= pos1 <= pos0 + (sink1.len() - sink0.len())
    &&& errs1 == errs0.push(e)
}

// The reported length follows the number of bytes received; after a failure it may only lag behind. By induction over a
// history of writes on a fresh writer (length 0, nothing received) the two are equal, and the length is never ahead.
pub proof fn lemma_length_is_received(p0: int, s0: Seq<u8>, e0: Seq<std::io::Error>, p1: int, s1: Seq<u8>, e1: Seq<std::io::Error>, full: Seq<u8>, e: std::io::Error)
    ensures
        sent(p0, s0, e0, p1, s1, e1, full) ==> p1 - p0 == s1.len() - s0.len(),
        failed(p0, s0, e0, p1, s1, e1, full, e) ==> 0 <= p1 - p0 <= s1.len() - s0.len(),
{
}
// Two writes in a row.
pub broadcast proof fn lemma_sent_sent(p0: int, s0: Seq<u8>, e0: Seq<std::io::Error>, p1: int, s1: Seq<u8>, e1: Seq<std::io::Error>,
                                       p2: int, s2: Seq<u8>, e2: Seq<std::io::Error>, a: Seq<u8>, b: Seq<u8>, full: Seq<u8>)
    requires
        #[trigger] sent(p0, s0, e0, p1, s1, e1, a),
        #[trigger] sent(p1, s1, e1, p2, s2, e2, b),
        full == a + b,
    ensures
        #[trigger] sent(p0, s0, e0, p2, s2, e2, full)
{
    assert(s2 =~= s0 + full);
}
// A write that succeeds, then one that fails.
pub broadcast proof fn lemma_sent_failed(p0: int, s0: Seq<u8>, e0: Seq<std::io::Error>, p1: int, s1: Seq<u8>, e1: Seq<std::io::Error>,
                                         p2: int, s2: Seq<u8>, e2: Seq<std::io::Error>, a: Seq<u8>, b: Seq<u8>, full: Seq<u8>, e: std::io::Error)
    requires
        #[trigger] sent(p0, s0, e0, p1, s1, e1, a),
        #[trigger] failed(p1, s1, e1, p2, s2, e2, b, e),
        prefix(a + b, full),
    ensures
        #[trigger] failed(p0, s0, e0, p2, s2, e2, full, e)
{
    let n = s2.len() - s0.len();
    assert(full.take((a + b).len() as int) =~= a + b);
    assert(full.take(n) =~= (a + b).take(n)) by {
        assert forall|k: int| 0 <= k < n implies full.take(n)[k] == (a + b).take(n)[k] by {
            assert(full.take((a + b).len() as int)[k] == full[k]);
        }
    }
    assert((a + b).take(n) =~= a + b.take(n - a.len()));
    assert(s2 =~= s0 + full.take(n));
}
pub open spec fn prefix(a: Seq<u8>, full: Seq<u8>) -> bool {
    a.len() <= full.len() && full.take(a.len() as int) == a
}
pub broadcast proof fn lemma_cut_further(s0: Seq<u8>, a: Seq<u8>, s1: Seq<u8>, b: Seq<u8>, full: Seq<u8>)
    requires
        #[trigger] cut(s0 + a, s1, b),
        prefix(a + b, full),
    ensures
        #[trigger] cut(s0, s1, full)
{
    let n = s1.len() - s0.len();
    assert(full.take(n) =~= (a + b).take(n)) by {
        assert forall|k: int| 0 <= k < n implies full.take(n)[k] == (a + b).take(n)[k] by {
            assert(full.take((a + b).len() as int)[k] == full[k]);
        }
    }
    assert((a + b).take(n) =~= a + b.take(n - a.len()));
    assert(s1 =~= s0 + full.take(n));
}
// A write whose bytes are a prefix of a longer one.
pub broadcast proof fn lemma_failed_widen(p0: int, s0: Seq<u8>, e0: Seq<std::io::Error>, p1: int, s1: Seq<u8>, e1: Seq<std::io::Error>,
                                          a: Seq<u8>, full: Seq<u8>, e: std::io::Error)
    requires
        #[trigger] failed(p0, s0, e0, p1, s1, e1, a, e),
        prefix(a, full),
    ensures
        #[trigger] failed(p0, s0, e0, p1, s1, e1, full, e)
{
    let n = s1.len() - s0.len();
    assert(full.take(n) =~= a.take(n)) by {
        assert forall|k: int| 0 <= k < n implies full.take(n)[k] == a.take(n)[k] by {
            assert(full.take(a.len() as int)[k] == full[k]);
        }
    }
}
pub broadcast group group_model {
    lemma_failed_widen,
    axiom_pod_len,
    axiom_size_of_val,
    lemma_sent_sent,
    lemma_sent_failed,
    lemma_cut_further,
}

// ---- iterators --------------------------------------------------------------
#[verifier::prophetic]
pub open spec fn rem<I: Iterator>(i: &I) -> Seq<I::Item> { IteratorSpec::remaining(i) }
// ASSUMED of an iterator handed to write_iter: it obeys vstd's iterator laws (it yields a
// fixed sequence, and keeps returning None once it has).
#[verifier::prophetic]
pub open spec fn lawful<I: Iterator>() -> bool {
    forall|i: &I| #[trigger] IteratorSpec::obeys_prophetic_iter_laws(i)
}

pub uninterp spec fn pod_bytes<T>(t: T) -> Seq<u8>;
// ASSUMED: a value's bytes are as many as its type's size.
#[verifier::external_body]
pub broadcast proof fn axiom_pod_len<T>(t: T)
    ensures #[trigger] pod_bytes(t).len() == vstd::layout::size_of::<T>()
{}
}

// Stand-in signatures for the external crate bytemuck (its contract is assumed here and checked on
// the real crate, for every supported type, by the Kani harnesses of C04).
pub mod bytemuck {
use vstd::prelude::*;
use super::model::*;
// The value all of whose bytes are zero; a padding array [u8; N] (its length N is under contract where it is used).
pub uninterp spec fn zero<T>() -> T;
pub open spec fn is_zero<T>(t: T) -> bool { t == zero::<T>() }
#[verifier::external_body]
pub struct Pad { p: u8 }
impl Clone for Pad {
    #[verifier::external_body]
    fn clone(&self) -> Self { *self }
}
impl Copy for Pad {}
pub uninterp spec fn pad_bytes(p: Pad) -> Seq<u8>;
#[verifier::external_body]
pub broadcast proof fn axiom_pad_zero(p: Pad)
    ensures #[trigger] is_zero(p) ==> forall|i: int| 0 <= i < pad_bytes(p).len() ==> #[trigger] pad_bytes(p)[i] == 0
{}
pub unsafe trait Zeroable: Sized {
    // ASSUMED: the documented contract of bytemuck::Zeroable::zeroed.
    #[verifier::external_body]
    fn zeroed() -> (r: Self)
        ensures is_zero(r)
    { unimplemented!() }
}
pub unsafe trait Pod: Zeroable + Copy {}
unsafe impl Zeroable for f32 {}
unsafe impl Pod for f32 {}
unsafe impl Zeroable for f64 {}
unsafe impl Pod for f64 {}
unsafe impl Zeroable for i32 {}
unsafe impl Pod for i32 {}
unsafe impl Zeroable for u32 {}
unsafe impl Pod for u32 {}
#[verifier::external_body]
pub fn bytes_of<T: Pod>(t: &T) -> (r: &[u8])
    ensures r@ == pod_bytes(*t), r@.len() == vstd::layout::size_of::<T>()
{ unimplemented!() }
}
