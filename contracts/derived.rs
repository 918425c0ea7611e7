// Layout of structs: the GLSL rules, what repr(C) does, and why the derive's explicit padding makes the two agree.
pub mod derived {
use vstd::prelude::*;
use crate::model::*;

// A member as GLSL sees it (size, base alignment) with the Rust alignment of its form.
pub struct Fld { pub size: int, pub align: int, pub ralign: int }
pub open spec fn up(x: int, a: int) -> int { x + pad_to(x, a) }

// GLSL: the end of the first k members; the offset of member k; alignment and size of the struct.
pub open spec fn end(fs: Seq<Fld>, k: int) -> int
    decreases k
{
    if k <= 0 { 0 } else { up(end(fs, k - 1), fs[k - 1].align) + fs[k - 1].size }
}
pub open spec fn off(fs: Seq<Fld>, k: int) -> int { up(end(fs, k), fs[k].align) }
pub open spec fn salign(min: int, fs: Seq<Fld>, k: int) -> int
    decreases k
{
    if k <= 0 { min } else { larger(salign(min, fs, k - 1), fs[k - 1].align) }
}
pub open spec fn ssize(min: int, fs: Seq<Fld>) -> int { up(end(fs, fs.len() as int), salign(min, fs, fs.len() as int)) }
pub open spec fn larger(a: int, b: int) -> int { if a >= b { a } else { b } }

pub open spec fn pw(k: nat) -> int
    decreases k
{
    if k == 0 { 1 } else { 2 * pw((k - 1) as nat) }
}
pub open spec fn is_pow2(x: int) -> bool { exists|k: nat| x == #[trigger] pw(k) }
pub open spec fn wf1(f: Fld) -> bool { f.size >= 0 && is_pow2(f.align) && f.ralign > 0 && f.align % f.ralign == 0 }
// What the (unsafe) layout traits ask of a form: a power-of-two alignment that Rust's own divides.
pub open spec fn wf(fs: Seq<Fld>) -> bool { forall|k: int| 0 <= k < fs.len() ==> wf1(#[trigger] fs[k]) }
// The struct fits the address space.
pub open spec fn fits(min: int, fs: Seq<Fld>) -> bool { ssize(min, fs) <= usize::MAX && salign(min, fs, fs.len() as int) <= usize::MAX }

// Rust's documented repr(C) algorithm.
pub struct Mem { pub size: int, pub align: int }
pub open spec fn c_end(ms: Seq<Mem>, k: int) -> int
    decreases k
{
    if k <= 0 { 0 } else { up(c_end(ms, k - 1), ms[k - 1].align) + ms[k - 1].size }
}
pub open spec fn c_off(ms: Seq<Mem>, k: int) -> int { up(c_end(ms, k), ms[k].align) }
pub open spec fn c_align(ms: Seq<Mem>, k: int) -> int
    decreases k
{
    if k <= 0 { 1 } else { larger(c_align(ms, k - 1), ms[k - 1].align) }
}
pub open spec fn c_size(ms: Seq<Mem>) -> int { up(c_end(ms, ms.len() as int), c_align(ms, ms.len() as int)) }

// The padding that belongs after member k.
pub open spec fn pad_after(min: int, fs: Seq<Fld>, k: int) -> int {
    if k + 1 < fs.len() { pad_to(end(fs, k + 1), fs[k + 1].align) } else { pad_to(end(fs, k + 1), salign(min, fs, fs.len() as int)) }
}
// The members are the fields, in order, each followed by its padding.
pub open spec fn interleaved(min: int, fs: Seq<Fld>, ms: Seq<Mem>) -> bool {
    &&& ms.len() == 2 * fs.len()
    &&& forall|k: int| 0 <= k < fs.len() ==> {
        &&& (#[trigger] ms[2 * k]).size == fs[k].size && ms[2 * k].align == fs[k].ralign
        &&& ms[2 * k + 1].size == pad_after(min, fs, k) && ms[2 * k + 1].align == 1
    }
}
// The repr(C) struct of these members has the GLSL layout, and nothing but fields and explicit padding in it.
pub open spec fn laid_out(min: int, fs: Seq<Fld>, ms: Seq<Mem>) -> bool {
    &&& ms.len() == 2 * fs.len()
    &&& forall|k: int| 0 <= k < fs.len() ==> c_off(ms, 2 * k) == #[trigger] off(fs, k)
    &&& c_size(ms) == ssize(min, fs)
}
pub open spec fn no_gaps(ms: Seq<Mem>) -> bool {
    &&& forall|k: int| 0 <= k < ms.len() ==> #[trigger] c_off(ms, k) == c_end(ms, k)
    &&& c_size(ms) == c_end(ms, ms.len() as int)
}
// The struct is itself a form that other structs may contain.
pub open spec fn nests(min: int, fs: Seq<Fld>, ms: Seq<Mem>) -> bool {
    wf1(Fld { size: c_size(ms), align: salign(min, fs, fs.len() as int), ralign: c_align(ms, ms.len() as int) })
}

pub proof fn lemma_pw(i: nat, j: nat)
    ensures pw(i) >= 1, i <= j ==> pw(i) <= pw(j) && pw(j) % pw(i) == 0
    decreases i + j
{
    if i < j {
        lemma_pw(i, (j - 1) as nat);
        let a = pw(i);
        let b = pw((j - 1) as nat);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, a);
        let q = b / a;
        assert(2 * b == a * (2 * q)) by (nonlinear_arith) requires b == a * q;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(2 * b, a, 2 * q, 0);
    } else if i == j {
        if i > 0 { lemma_pw((i - 1) as nat, (i - 1) as nat); }
        vstd::arithmetic::div_mod::lemma_mod_self_0(pw(i));
    } else {
        if i > 0 { lemma_pw((i - 1) as nat, j); }
    }
}
pub proof fn lemma_pow2(a: int, b: int)
    requires is_pow2(a), is_pow2(b)
    ensures a >= 1, a <= b ==> b % a == 0
{
    let i = choose|k: nat| a == #[trigger] pw(k);
    let j = choose|k: nat| b == #[trigger] pw(k);
    lemma_pw(i, j);
    lemma_pw(j, i);
}
pub proof fn lemma_mod_trans(x: int, a: int, r: int)
    requires a > 0, r > 0, x % a == 0, a % r == 0
    ensures x % r == 0
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, a);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, r);
    let p = x / a;
    let q = a / r;
    assert(x == r * (q * p)) by (nonlinear_arith) requires x == a * p, a == r * q;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, r, q * p, 0);
}
// One step of the GLSL rules.
pub proof fn lemma_end(fs: Seq<Fld>, k: int)
    requires wf(fs), 0 <= k <= fs.len()
    ensures
        end(fs, k) >= 0,
        k < fs.len() ==> {
            &&& fs[k].align >= 1
            &&& 0 <= pad_to(end(fs, k), fs[k].align) < fs[k].align
            &&& end(fs, k + 1) == end(fs, k) + pad_to(end(fs, k), fs[k].align) + fs[k].size
            &&& end(fs, k) <= end(fs, k + 1)
            &&& off(fs, k) % fs[k].align == 0
        },
    decreases k
{
    if k > 0 {
        lemma_end(fs, k - 1);
    }
    if k < fs.len() {
        assert(wf1(fs[k]));
        lemma_pow2(fs[k].align, fs[k].align);
        lemma_pad(end(fs, k), fs[k].align);
    }
}
pub proof fn lemma_ends(fs: Seq<Fld>, k: int)
    requires wf(fs), 0 <= k <= fs.len()
    ensures end(fs, k) <= end(fs, fs.len() as int)
    decreases fs.len() - k
{
    if k < fs.len() {
        lemma_end(fs, k);
        lemma_ends(fs, k + 1);
    }
}
pub proof fn lemma_salign(min: int, fs: Seq<Fld>, k: int)
    requires wf(fs), is_pow2(min), 0 <= k <= fs.len()
    ensures
        is_pow2(salign(min, fs, k)),
        salign(min, fs, k) >= min >= 1,
        forall|j: int| 0 <= j < k ==> salign(min, fs, k) % (#[trigger] fs[j]).align == 0 && fs[j].align <= salign(min, fs, k),
    decreases k
{
    lemma_pow2(min, min);
    if k > 0 {
        lemma_salign(min, fs, k - 1);
        assert(wf1(fs[k - 1]));
        lemma_pow2(fs[k - 1].align, salign(min, fs, k));
        assert forall|j: int| 0 <= j < k implies salign(min, fs, k) % (#[trigger] fs[j]).align == 0 && fs[j].align <= salign(min, fs, k) by {
            assert(wf1(fs[j]));
            lemma_pow2(fs[j].align, salign(min, fs, k));
        }
    }
}
// The largest Rust alignment of the members divides the struct's alignment.
proof fn lemma_c_align(min: int, fs: Seq<Fld>, ms: Seq<Mem>, k: int)
    requires wf(fs), is_pow2(min), interleaved(min, fs, ms), 0 <= k <= ms.len()
    ensures c_align(ms, k) >= 1, salign(min, fs, fs.len() as int) % c_align(ms, k) == 0
    decreases k
{
    let s = salign(min, fs, fs.len() as int);
    lemma_salign(min, fs, fs.len() as int);
    if k > 0 {
        lemma_c_align(min, fs, ms, k - 1);
        let j = (k - 1) / 2;
        assert(ms[2 * j].align == fs[j].ralign);
        assert(wf1(fs[j]));
        lemma_pow2(fs[j].align, s);
        lemma_mod_trans(s, fs[j].align, fs[j].ralign);
        assert(k - 1 == 2 * j || k - 1 == 2 * j + 1);
        assert(s % 1 == 0);
    }
}
proof fn lemma_members(min: int, fs: Seq<Fld>, ms: Seq<Mem>, k: int)
    requires wf(fs), is_pow2(min), interleaved(min, fs, ms), 0 <= k < fs.len()
    ensures
        c_end(ms, 2 * k) == (if k == 0 { 0 } else { off(fs, k) }),
        c_off(ms, 2 * k) == c_end(ms, 2 * k) == off(fs, k),
        c_off(ms, 2 * k + 1) == c_end(ms, 2 * k + 1) == end(fs, k + 1),
        c_end(ms, 2 * k + 2) == end(fs, k + 1) + pad_after(min, fs, k),
    decreases k
{
    lemma_end(fs, k);
    lemma_end(fs, k + 1);
    if k > 0 {
        lemma_members(min, fs, ms, k - 1);
        assert(2 * (k - 1) + 2 == 2 * k);
    } else {
        lemma_pad(0, fs[0].align);
        vstd::arithmetic::div_mod::lemma_small_mod(0, fs[0].align as nat);
        assert(off(fs, 0) == 0);
    }
    let m = ms[2 * k];
    assert(wf1(fs[k]));
    lemma_mod_trans(off(fs, k), fs[k].align, fs[k].ralign);
    lemma_pad(off(fs, k), fs[k].ralign);
    assert(c_end(ms, 2 * k + 1) == up(c_end(ms, 2 * k), m.align) + m.size);
    lemma_pad(end(fs, k + 1), 1);
    let p = ms[2 * k + 1];
    assert(c_end(ms, 2 * k + 2) == up(c_end(ms, 2 * k + 1), p.align) + p.size);
}
pub proof fn lemma_layout(min: int, fs: Seq<Fld>, ms: Seq<Mem>)
    requires wf(fs), is_pow2(min), interleaved(min, fs, ms)
    ensures laid_out(min, fs, ms), no_gaps(ms), nests(min, fs, ms)
{
    let n = fs.len() as int;
    let s = salign(min, fs, n);
    lemma_salign(min, fs, n);
    lemma_c_align(min, fs, ms, ms.len() as int);
    assert forall|k: int| 0 <= k < fs.len() implies c_off(ms, 2 * k) == #[trigger] off(fs, k) by {
        lemma_members(min, fs, ms, k);
    }
    assert forall|k: int| 0 <= k < ms.len() implies #[trigger] c_off(ms, k) == c_end(ms, k) by {
        lemma_members(min, fs, ms, k / 2);
        assert(k == 2 * (k / 2) || k == 2 * (k / 2) + 1);
    }
    lemma_end(fs, n);
    lemma_pad(end(fs, n), s);
    if n > 0 {
        lemma_members(min, fs, ms, n - 1);
        assert(2 * (n - 1) + 2 == 2 * n);
    } else {
        vstd::arithmetic::div_mod::lemma_small_mod(0, s as nat);
    }
    assert(c_end(ms, 2 * n) == ssize(min, fs));
    lemma_mod_trans(ssize(min, fs), s, c_align(ms, 2 * n));
    lemma_pad(ssize(min, fs), c_align(ms, 2 * n));
}
pub proof fn lemma_min()
    ensures is_pow2(1), is_pow2(16)
{
    assert(pw(0) == 1);
    reveal_with_fuel(pw, 5);
    assert(pw(4) == 16);
}

// ---- bytes ------------------------------------------------------------------
pub open spec fn all_zero(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] == 0 }
// The bytes of the first k members, each with the padding after it.
pub open spec fn bytes_from(bs: Seq<Seq<u8>>, ps: Seq<Seq<u8>>, k: int) -> Seq<u8>
    decreases k
{
    if k <= 0 { Seq::empty() } else { bytes_from(bs, ps, k - 1) + bs[k - 1] + ps[k - 1] }
}
pub open spec fn within(fs: Seq<Fld>, k: int, i: int) -> bool { off(fs, k) <= i < off(fs, k) + fs[k].size }
// As many bytes as the GLSL struct has, every field's bytes at its GLSL offset, zero everywhere else.
pub open spec fn glsl_image(min: int, fs: Seq<Fld>, bs: Seq<Seq<u8>>, out: Seq<u8>) -> bool {
    &&& out.len() == ssize(min, fs)
    &&& forall|k: int, i: int| 0 <= k < fs.len() && #[trigger] within(fs, k, i) ==> out[i] == bs[k][i - off(fs, k)]
    &&& forall|i: int| 0 <= i < out.len() && (forall|k: int| 0 <= k < fs.len() ==> !#[trigger] within(fs, k, i)) ==> #[trigger] out[i] == 0
}
proof fn lemma_bytes(min: int, fs: Seq<Fld>, bs: Seq<Seq<u8>>, ps: Seq<Seq<u8>>, k: int)
    requires
        wf(fs), is_pow2(min), 0 <= k <= fs.len(),
        bs.len() == fs.len(), ps.len() == fs.len(),
        forall|j: int| 0 <= j < fs.len() ==> (#[trigger] bs[j]).len() == fs[j].size,
        forall|j: int| 0 <= j < fs.len() ==> (#[trigger] ps[j]).len() == pad_after(min, fs, j) && all_zero(ps[j]),
    ensures
        ({
            let out = bytes_from(bs, ps, k);
            &&& out.len() == (if k == 0 { 0 } else { end(fs, k) + pad_after(min, fs, k - 1) })
            &&& forall|j: int, i: int| 0 <= j < k && #[trigger] within(fs, j, i) ==> 0 <= i < out.len() && out[i] == bs[j][i - off(fs, j)]
            &&& forall|i: int| 0 <= i < out.len() && (forall|j: int| 0 <= j < k ==> !#[trigger] within(fs, j, i)) ==> #[trigger] out[i] == 0
        }),
    decreases k
{
    if k > 0 {
        let m = k - 1;
        lemma_bytes(min, fs, bs, ps, m);
        lemma_end(fs, m);
        lemma_end(fs, k);
        let a = bytes_from(bs, ps, m);
        let out = bytes_from(bs, ps, k);
        assert(out == a + bs[m] + ps[m]);
        if m == 0 {
            lemma_pad(0, fs[0].align);
            vstd::arithmetic::div_mod::lemma_small_mod(0, fs[0].align as nat);
        }
        assert(a.len() == off(fs, m));
        assert(off(fs, m) + fs[m].size == end(fs, k));
        assert(bs[m].len() == fs[m].size);
        assert(ps[m].len() == pad_after(min, fs, m));
        assert forall|j: int, i: int| 0 <= j < k && #[trigger] within(fs, j, i) implies 0 <= i < out.len() && out[i] == bs[j][i - off(fs, j)] by {
            if j < m {
                assert(out[i] == a[i]);
            } else {
                assert(out[i] == bs[m][i - a.len()]);
            }
        }
        assert forall|i: int| 0 <= i < out.len() && (forall|j: int| 0 <= j < k ==> !#[trigger] within(fs, j, i)) implies #[trigger] out[i] == 0 by {
            if i < a.len() {
                assert(out[i] == a[i]);
            } else if i < a.len() + bs[m].len() {
                assert(within(fs, m, i));
            } else {
                assert(out[i] == ps[m][i - a.len() - bs[m].len()]);
            }
        }
    }
}
pub proof fn lemma_image(min: int, fs: Seq<Fld>, bs: Seq<Seq<u8>>, ps: Seq<Seq<u8>>)
    requires
        wf(fs), is_pow2(min),
        bs.len() == fs.len(), ps.len() == fs.len(),
        forall|j: int| 0 <= j < fs.len() ==> (#[trigger] bs[j]).len() == fs[j].size,
        forall|j: int| 0 <= j < fs.len() ==> (#[trigger] ps[j]).len() == pad_after(min, fs, j) && all_zero(ps[j]),
    ensures glsl_image(min, fs, bs, bytes_from(bs, ps, fs.len() as int))
{
    let n = fs.len() as int;
    lemma_bytes(min, fs, bs, ps, n);
    if n == 0 {
        lemma_salign(min, fs, 0);
        lemma_pad(0, min);
        vstd::arithmetic::div_mod::lemma_small_mod(0, min as nat);
    }
}
}
