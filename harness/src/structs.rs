//! Structs that derive the layouts, described by the GLSL rules, and user-defined forms.
pub use crate::types::*;
pub use crevice::glsl::{Glsl, GlslStruct};
use crevice::std140::Std140;
use crevice::std430::Std430;

/// A user-defined form of S bytes and alignment A (a power of two) in both layouts.
#[repr(transparent)]
#[derive(Clone, Copy, Debug)]
pub struct Raw<const S: usize, const A: usize>(pub [u8; S]);
unsafe impl<const S: usize, const A: usize> bytemuck::Zeroable for Raw<S, A> {}
unsafe impl<const S: usize, const A: usize> bytemuck::Pod for Raw<S, A> {}
unsafe impl<const S: usize, const A: usize> Std140 for Raw<S, A> {
    const ALIGNMENT: usize = A;
}
unsafe impl<const S: usize, const A: usize> Std430 for Raw<S, A> {
    const ALIGNMENT: usize = A;
}
impl<const S: usize, const A: usize> Fld for Raw<S, A> {
    const GL: G = G::R(S, A);
    fn nd() -> Self {
        let mut b = [0u8; S];
        let mut i = 0;
        if nd::native() && S > 64 {
            // One draw.
            let mut x = nd::u64() | 1;
            while i < S {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                b[i] = (x >> 40) as u8;
                i += 1;
            }
            return Raw(b);
        }
        while i < S {
            b[i] = nd::u8();
            i += 1;
        }
        Raw(b)
    }
    fn put(&self, _l: Lay, out: &mut [u8], at: usize) {
        let mut i = 0;
        while i < S {
            out[at + i] = self.0[i];
            i += 1;
        }
    }
    fn same(&self, o: &Self) -> bool {
        let mut ok = true;
        let mut i = 0;
        while i < S {
            ok = ok & (self.0[i] == o.0[i]);
            i += 1;
        }
        ok
    }
    fn stands(&self, _l: Lay, got: &[u8], at: usize) -> bool {
        let mut ok = true;
        let mut i = 0;
        while i < S {
            ok = ok & (got[at + i] == self.0[i]);
            i += 1;
        }
        ok
    }
}

/// What the derives generated, observed from outside.
pub trait Derived: Fld {
    const AT140: &'static [usize];
    const AT430: &'static [usize];
    /// The byte views of the forms, as a user calls them.
    fn view140(form: &<Self as AsStd140>::Output) -> &[u8];
    fn view430(form: &<Self as AsStd430>::Output) -> &[u8];
}

/// Defines a struct that derives both layouts, its GLSL description and its observed offsets.
#[macro_export]
macro_rules! st {
    ($(#[$m:meta])* $n:ident { $($f:ident : $t:ty),* $(,)? }) => {
        #[derive(crevice::std140::AsStd140, crevice::std430::AsStd430)]
        $(#[$m])*
        pub struct $n { $(pub $f: $t,)* }
        $crate::derived!($n { $($f: $t),* });
    };
}
/// The other half: what the harness needs to know about a derived struct that is written out.
#[macro_export]
macro_rules! derived {
    ($n:ident { $($f:ident : $t:ty),* $(,)? }) => {
        impl Fld for $n {
            const GL: G = G::St(&[$(<$t as Fld>::GL),*]);
            fn nd() -> Self { $n { $($f: <$t as Fld>::nd(),)* } }
            #[allow(unused)]
            fn put(&self, l: Lay, out: &mut [u8], at: usize) {
                let mut i = 0;
                $( self.$f.put(l, out, at + Self::OFF[l as usize][i]); i += 1; )*
            }
            #[allow(unused)]
            fn same(&self, o: &Self) -> bool {
                let mut ok = true;
                $( ok = ok & self.$f.same(&o.$f); )*
                ok
            }
            #[allow(unused)]
            fn stands(&self, l: Lay, got: &[u8], at: usize) -> bool {
                let mut i = 0;
                let mut ok = true;
                $( ok = ok & self.$f.stands(l, got, at + Self::OFF[l as usize][i]); i += 1; )*
                ok
            }
        }
        impl Derived for $n {
            const AT140: &'static [usize] = &[$(core::mem::offset_of!(<$n as AsStd140>::Output, $f)),*];
            const AT430: &'static [usize] = &[$(core::mem::offset_of!(<$n as AsStd430>::Output, $f)),*];
            fn view140(form: &<$n as AsStd140>::Output) -> &[u8] { form.as_bytes() }
            fn view430(form: &<$n as AsStd430>::Output) -> &[u8] { form.as_bytes() }
        }
    };
}

type V2 = mint::Vector2<f32>;
type V3 = mint::Vector3<f32>;
type V4 = mint::Vector4<f32>;
type D2 = mint::Vector2<f64>;
type D3 = mint::Vector3<f64>;
type D4 = mint::Vector4<f64>;
type M2 = mint::ColumnMatrix2<f32>;
type M3 = mint::ColumnMatrix3<f32>;
type M4 = mint::ColumnMatrix4<f32>;
type DM2 = mint::ColumnMatrix2<f64>;
type DM3 = mint::ColumnMatrix3<f64>;
type DM4 = mint::ColumnMatrix4<f64>;
type BV3 = mint::Vector3<bool>;

// No fields, one field.
st!(Empty {});
st!(One { a: f32 });
st!(OneD { a: D3 });
st!(OneB { a: bool });
// Long, every alignment, increasing and decreasing.
st!(Asc { a: f32, b: f64, c: V2, d: V3, e: V4, f: D2, g: D3, h: D4 });
st!(Desc { a: D4, b: D3, c: D2, d: V4, e: V3, f: V2, g: f64, h: f32 });
st!(Zig { a: f32, b: D3, c: f32, d: V3, e: f32, f: D4, g: u32, h: V2, i: bool, j: f64, k: i32 });
st!(Scal { a: bool, b: f64, c: i32, d: u32, e: f32, f: f64, g: bool });
st!(Long16 {
    a: f32, b: V2, c: f32, d: V3, e: f32, f: V3, g: V2, h: f64,
    i: f32, j: D2, k: f32, l: bool, m: V4, n: u32, o: i32, p: V2,
});
st!(Mats { a: M2, b: f32, c: M3, d: f32, e: M4, f: f32 });
st!(DMats { a: f32, b: DM2, c: f32, d: DM3, e: f32 });
st!(DMat4s { a: f32, b: DM4, c: V2 });
st!(Lists {
    p: glam::Mat3, q: nalgebra::Point3<f32>, r: cgmath::Vector2<f64>, s: nalgebra::Matrix2<f64>,
    t: f32, u: cgmath::Point2<bool>, v: glam::UVec3, w: i32,
});
// Nesting.
st!(In1 { a: f32, b: V3, c: f32 });
st!(In2 { a: bool, b: D3 });
st!(Nest1 { a: f32, b: In1, c: f32 });
st!(Nest2 { a: In1, b: In1, c: V2, d: In2, e: f32 });
st!(Nest3 { a: V2, b: Nest1, c: f32, d: OneB, e: f32 });
st!(Nest4 { a: One, b: One, c: Nest3, d: bool });
st!(HasEmpty { a: f32, e: Empty, b: f32 });
// Booleans.
st!(Bools { a: bool, b: BV3, c: bool, d: mint::Vector2<bool>, e: mint::Vector4<bool>, f: bool });
// Raw identifiers as field names.
st!(Idents { r#type: f32, r#struct: V3, color: V2, r#in: f32 });
// User-defined forms with large alignments; forms used as their own fields.
st!(Big { a: f32, b: Raw<20, 64>, c: f32, d: Raw<4, 256>, e: V2 });
st!(Small { a: Raw<1, 1>, b: Raw<3, 1>, c: Raw<2, 2>, d: Raw<1, 1>, e: f32, f: Raw<5, 1> });

/// Calls `$m!` with the list of all structs above.
#[macro_export]
macro_rules! each_struct {
    ($f:ident) => {
        each_struct!($f; Empty, One, OneD, OneB, Asc, Desc, Zig, Scal, Long16, Mats, DMats, DMat4s,
            Lists, In1, In2, Nest1, Nest2, Nest3, Nest4, HasEmpty, Bools, Idents, Big, Small)
    };
    ($f:ident; $($t:ident),*) => {{ $($f::<$crate::structs::$t>();)* }};
}

pub trait Visit {
    fn visit<T: Derived>() -> bool;
}

/// Calls `$v::visit` on a struct `{ a: A, b: B, c: A }` for every A, B of the list.
macro_rules! pairs {
    ($v:ident; [$($a:ty),*] $b:tt) => { true $( & pairs!(@row $v; $a; $b) )* };
    (@row $v:ident; $a:ty; [$($b:ty),*]) => { true $( & { st!(P { a: $a, b: $b, c: $a }); $v::visit::<P>() } )* };
}
macro_rules! all_pairs {
    ($($t:ty),*) => {
        pub mod pairs {
            use super::*;
            all_pairs!(@fns [$($t),*]);
        }
    };
    (@fns [$t0:ty, $t1:ty, $t2:ty, $t3:ty, $t4:ty, $t5:ty, $t6:ty, $t7:ty, $t8:ty, $t9:ty, $t10:ty, $t11:ty, $t12:ty, $t13:ty, $t14:ty, $t15:ty]) => {
        pub fn all<V: Visit>() -> bool {
            pairs!(V; [$t0, $t1, $t2, $t3, $t4, $t5, $t6, $t7, $t8, $t9, $t10, $t11, $t12, $t13, $t14, $t15]
                      [$t0, $t1, $t2, $t3, $t4, $t5, $t6, $t7, $t8, $t9, $t10, $t11, $t12, $t13, $t14, $t15])
        }
    };
}
all_pairs!(f32, f64, bool, V2, V3, V4, D2, D3, D4, M2, M3, M4, DM2, DM3, In1, OneD);
