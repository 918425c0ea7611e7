//! C01, C02 (derived structs), C03 (built-in forms), C14 (array strides).
use crate::spec::Lay::*;
use crate::structs::*;
use core::mem::size_of;
use crevice::std140::{self, Std140};
use crevice::std430::{self, Std430};

/// The layout of a derived struct consists of compile-time constants; so do these comparisons.
struct Facts<T>(core::marker::PhantomData<T>);
macro_rules! facts {
    ($as:ident, $at:ident, $k:literal, $l:ident, $al:ident, $of:ident, $si:ident) => {
        const $al: bool = <T as $as>::Output::ALIGNMENT == T::GL.align($l);
        const $si: bool = size_of::<<T as $as>::Output>() == T::SIZE[$k];
        const $of: bool = {
            let mut ok = T::$at.len() == T::GL.comps();
            let mut i = 0;
            while i < T::$at.len() {
                ok = ok & (T::$at[i] == T::OFF[$k][i]);
                i += 1;
            }
            ok
        };
    };
}
impl<T: Derived> Facts<T> {
    facts!(AsStd140, AT140, 0, L140, ALIGN140, OFFS140, SIZE140);
    facts!(AsStd430, AT430, 1, L430, ALIGN430, OFFS430, SIZE430);
}
pub fn derived140<T: Derived>() {
    check!(Facts::<T>::ALIGN140, "post: std140 struct alignment");
    check!(Facts::<T>::OFFS140, "post: std140 field offsets");
    check!(Facts::<T>::SIZE140, "post: std140 struct size");
    check!(T::std140_size_static() == T::SIZE[0], "post: std140 reported struct size");
}
pub fn derived430<T: Derived>() {
    check!(Facts::<T>::ALIGN430, "post: std430 struct alignment");
    check!(Facts::<T>::OFFS430, "post: std430 field offsets");
    check!(Facts::<T>::SIZE430, "post: std430 struct size");
    check!(T::std430_size_static() == T::SIZE[1], "post: std430 reported struct size");
}
struct V140;
impl Visit for V140 {
    fn visit<T: Derived>() -> bool {
        let ok = const { Facts::<T>::ALIGN140 && Facts::<T>::OFFS140 && Facts::<T>::SIZE140 };
        if !ok && crate::nd::native() {
            derived140::<T>();
        }
        ok
    }
}
struct V430;
impl Visit for V430 {
    fn visit<T: Derived>() -> bool {
        let ok = const { Facts::<T>::ALIGN430 && Facts::<T>::OFFS430 && Facts::<T>::SIZE430 };
        if !ok && crate::nd::native() {
            derived430::<T>();
        }
        ok
    }
}
pub fn c01_structs() {
    each_struct!(derived140)
}
pub fn c01_pairs() {
    check!(pairs::all::<V140>(), "post: std140 layout of every struct of the pair family");
}
pub fn c02_structs() {
    each_struct!(derived430)
}
pub fn c02_pairs() {
    check!(pairs::all::<V430>(), "post: std430 layout of every struct of the pair family");
}

/// What the contracts of derived structs require of a form used as a field (`wf1` in contracts/derived.rs).
fn nests<F>(alignment: usize) {
    check!(alignment.is_power_of_two(), "post: the alignment is a power of two");
    check!(alignment % core::mem::align_of::<F>() == 0, "post: Rust's alignment divides it");
}

macro_rules! form {
    ($m:ident, $tr:ident, $l:ident, $name:ident, $g:expr, [$($f:ident: $ft:ty),*]) => {{
        const GT: G = $g;
        type F = $m::$name;
        check!(size_of::<F>() == const { GT.size($l) }, "post: size of the form");
        check!(<F as $tr>::ALIGNMENT == const { GT.align($l) }, "post: alignment of the form");
        nests::<F>(<F as $tr>::ALIGNMENT);
        let at: &[(usize, usize)] = &[$((core::mem::offset_of!(F, $f), size_of::<$ft>())),*];
        let mut i = 0;
        while i < at.len() {
            let e = match GT {
                G::M(_, _) => i * const { GT.stride($l) },
                _ => i * const { GT.unit() },
            };
            check!(at[i].0 == e, "post: offset of the component or column");
            i += 1;
        }
        // The component type at each offset is the declared one (the borrow fixes its type).
        let z: F = bytemuck::Zeroable::zeroed();
        $( let _: &$ft = &z.$f; )*
    }};
}
macro_rules! vec_forms {
    ($m:ident, $tr:ident, $l:ident; $($n:literal $c:ty: $v2:ident $v3:ident $v4:ident;)*) => {$(
        form!($m, $tr, $l, $v2, G::V($n, 2), [x: $c, y: $c]);
        form!($m, $tr, $l, $v3, G::V($n, 3), [x: $c, y: $c, z: $c]);
        form!($m, $tr, $l, $v4, G::V($n, 4), [x: $c, y: $c, z: $c, w: $c]);
    )*};
}
macro_rules! scalar_forms {
    ($tr:ident, $as:ident, $l:ident; $($t:ty: $n:literal),*) => {$(
        check!(size_of::<<$t as $as>::Output>() == $n, "post: size of the scalar form");
        check!(<<$t as $as>::Output as $tr>::ALIGNMENT == $n, "post: alignment of the scalar form");
        nests::<<$t as $as>::Output>(<<$t as $as>::Output as $tr>::ALIGNMENT);
    )*};
}
macro_rules! forms {
    ($m:ident, $tr:ident, $as:ident, $l:ident) => {
        scalar_forms!($tr, $as, $l; f32: 4, f64: 8, i32: 4, u32: 4, bool: 4, $m::Bool: 4);
        vec_forms!($m, $tr, $l;
            4 f32: Vec2 Vec3 Vec4; 4 i32: IVec2 IVec3 IVec4; 4 u32: UVec2 UVec3 UVec4;
            4 $m::Bool: BVec2 BVec3 BVec4; 8 f64: DVec2 DVec3 DVec4;);
        form!($m, $tr, $l, Mat2, G::M(4, 2), [x: $m::Vec2, y: $m::Vec2]);
        form!($m, $tr, $l, Mat3, G::M(4, 3), [x: $m::Vec3, y: $m::Vec3, z: $m::Vec3]);
        form!($m, $tr, $l, Mat4, G::M(4, 4), [x: $m::Vec4, y: $m::Vec4, z: $m::Vec4, w: $m::Vec4]);
        form!($m, $tr, $l, DMat2, G::M(8, 2), [x: $m::DVec2, y: $m::DVec2]);
        form!($m, $tr, $l, DMat3, G::M(8, 3), [x: $m::DVec3, y: $m::DVec3, z: $m::DVec3]);
        form!($m, $tr, $l, DMat4, G::M(8, 4), [x: $m::DVec4, y: $m::DVec4, z: $m::DVec4, w: $m::DVec4]);
    };
}
pub fn c03_std140() {
    forms!(std140, Std140, AsStd140, L140);
    type D<T> = <std140::DynamicUniform<T> as AsStd140>::Output;
    nests::<D<f32>>(<D<f32> as Std140>::ALIGNMENT);
    nests::<D<std140::DMat4>>(<D<std140::DMat4> as Std140>::ALIGNMENT);
}
pub fn c03_std430() {
    forms!(std430, Std430, AsStd430, L430);
}

/// Distance to the next multiple of every alignment there is ("Must be a power of two", says the trait).
pub fn align_pow2() {
    let offset = crate::nd::usize();
    // Nothing in memory ends beyond this.
    crate::nd::assume(offset <= isize::MAX as usize);
    let mut k = 0;
    while k < 64 {
        let a = 1usize << k;
        check!(crevice::internal::align_offset(offset, a) == a.wrapping_sub(offset & (a - 1)) & (a - 1), "post: distance to the next multiple");
        k += 1;
    }
}

#[cfg(kani)]
mod proofs {
    #[kani::proof]
    #[kani::unwind(66)]
    fn align_pow2() {
        super::align_pow2();
        crate::nd::reached();
    }
    #[kani::proof]
    fn c01_structs() {
        super::c01_structs();
        crate::nd::reached();
    }
    #[kani::proof]
    fn c01_pairs() {
        super::c01_pairs();
        crate::nd::reached();
    }
    #[kani::proof]
    fn c02_structs() {
        super::c02_structs();
        crate::nd::reached();
    }
    #[kani::proof]
    fn c02_pairs() {
        super::c02_pairs();
        crate::nd::reached();
    }
    #[kani::proof]
    fn c03_std140() {
        super::c03_std140();
        crate::nd::reached();
    }
    #[kani::proof]
    fn c03_std430() {
        super::c03_std430();
        crate::nd::reached();
    }
}
