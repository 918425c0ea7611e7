//! Every supported input type, described independently of crevice: its GLSL type, how to build a
//! value from component bits and how to read the component bits back with the library's own
//! accessors (never through mint conversions).
pub use crate::nd;
pub use crate::spec::{Lay, FIELDS, G, MAX};
pub use crevice::std140::AsStd140;
pub use crevice::std430::AsStd430;

/// A scalar component. `bits` is a bijection between values and `0..2^k`.
pub trait Comp: Copy {
    /// Encoded bytes.
    const UNIT: usize;
    fn from_bits(b: u64) -> Self;
    fn bits(self) -> u64;
    fn nd() -> u64;
    /// The GLSL name prefix: "", "d", "i", "u", "b".
    const PREFIX: &'static str;
    const SCALAR: &'static str;
}
macro_rules! comp {
    ($t:ty, $n:literal, $nd:expr, $p:literal, $s:literal, |$b:ident| $from:expr, |$v:ident| $to:expr) => {
        impl Comp for $t {
            const UNIT: usize = $n;
            const PREFIX: &'static str = $p;
            const SCALAR: &'static str = $s;
            #[inline]
            fn from_bits($b: u64) -> Self {
                $from
            }
            #[inline]
            fn bits(self) -> u64 {
                let $v = self;
                $to
            }
            fn nd() -> u64 {
                $nd
            }
        }
    };
}
comp!(f32, 4, nd::u32() as u64, "", "float", |b| f32::from_bits(b as u32), |v| v.to_bits() as u64);
comp!(f64, 8, nd::u64(), "d", "double", |b| f64::from_bits(b), |v| v.to_bits());
comp!(i32, 4, nd::u32() as u64, "i", "int", |b| b as u32 as i32, |v| v as u32 as u64);
comp!(u32, 4, nd::u32() as u64, "u", "uint", |b| b as u32, |v| v as u64);
comp!(bool, 4, nd::boolean() as u64, "b", "bool", |b| b != 0, |v| v as u64);

/// Anything that can be encoded in both layouts and compared.
pub trait Fld: AsStd140 + AsStd430 + Sized {
    const GL: G;
    /// Offsets of the components (or members) and the size, in std140 and std430.
    const OFF: [[usize; FIELDS]; 2] = [Self::GL.table(Lay::L140), Self::GL.table(Lay::L430)];
    const SIZE: [usize; 2] = [Self::GL.size(Lay::L140), Self::GL.size(Lay::L430)];
    fn nd() -> Self;
    /// Writes the expected component bytes at their GLSL offsets into zeroed `out`.
    fn put(&self, l: Lay, out: &mut [u8], at: usize);
    fn same(&self, o: &Self) -> bool;
    /// The bytes that belong to components.
    const MARK: [[bool; MAX]; 2] = [Self::GL.mark(Lay::L140, [false; MAX], 0), Self::GL.mark(Lay::L430, [false; MAX], 0)];
    /// Every component of `self` stands in `got` at its GLSL offset.
    fn stands(&self, l: Lay, got: &[u8], at: usize) -> bool;
}

/// Scalars, vectors, points and matrices.
pub trait Prim: Sized {
    type C: Comp;
    const G1: G;
    fn build(c: &[u64; 16]) -> Self;
    fn comps(&self) -> [u64; 16];
}

macro_rules! prim_fld {
    ($t:ty) => {
        impl Fld for $t {
            const GL: G = <$t as Prim>::G1;
            fn nd() -> Self {
                let mut c = [0u64; 16];
                const N: usize = <$t as Fld>::GL.comps();
                let n = N;
                let mut i = 0;
                while i < n {
                    c[i] = <<$t as Prim>::C as Comp>::nd();
                    i += 1;
                }
                <$t as Prim>::build(&c)
            }
            fn put(&self, l: Lay, out: &mut [u8], at: usize) {
                let c = self.comps();
                const N: usize = <$t as Fld>::GL.comps();
                let n = N;
                let mut i = 0;
                while i < n {
                    let o = at + Self::OFF[l as usize][i];
                    if Self::GL.unit() == 8 {
                        let b = c[i].to_ne_bytes();
                        let mut k = 0;
                        while k < 8 { out[o + k] = b[k]; k += 1; }
                    } else {
                        let b = (c[i] as u32).to_ne_bytes();
                        let mut k = 0;
                        while k < 4 { out[o + k] = b[k]; k += 1; }
                    }
                    i += 1;
                }
            }
            fn same(&self, o: &Self) -> bool {
                let (a, b) = (self.comps(), o.comps());
                let mut ok = true;
                let mut i = 0;
                while i < const { <$t as Fld>::GL.comps() } {
                    ok = ok & (a[i] == b[i]);
                    i += 1;
                }
                ok
            }
            fn stands(&self, l: Lay, got: &[u8], at: usize) -> bool {
                let c = self.comps();
                let mut ok = true;
                let mut i = 0;
                while i < const { <$t as Fld>::GL.comps() } {
                    let o = at + Self::OFF[l as usize][i];
                    // SAFETY: the callers have checked that `got` covers the whole form.
                    let p = unsafe { got.as_ptr().add(o) };
                    let w = if <$t as Fld>::GL.unit() == 8 {
                        unsafe { (p as *const u64).read_unaligned() }
                    } else {
                        unsafe { (p as *const u32).read_unaligned() as u64 }
                    };
                    ok = ok & (w == c[i]);
                    i += 1;
                }
                ok
            }
        }
    };
}

macro_rules! scalar {
    ($($t:ty),*) => {$(
        impl Prim for $t {
            type C = $t;
            const G1: G = G::S(<$t as Comp>::UNIT);
            fn build(c: &[u64; 16]) -> Self { <$t as Comp>::from_bits(c[0]) }
            fn comps(&self) -> [u64; 16] { let mut c = [0; 16]; c[0] = self.bits(); c }
        }
        prim_fld!($t);
    )*};
}
scalar!(f32, f64, i32, u32, bool);

/// `vect!(type, component, n, |c| build, |v, i| component)`
macro_rules! vect {
    ($t:ty, $c:ty, $n:literal, |$k:ident| $build:expr, |$v:ident| [$($e:expr),*]) => {
        impl Prim for $t {
            type C = $c;
            const G1: G = G::V(<$c as Comp>::UNIT, $n);
            fn build(bits: &[u64; 16]) -> Self {
                let $k = |i: usize| <$c as Comp>::from_bits(bits[i]);
                $build
            }
            fn comps(&self) -> [u64; 16] {
                let $v = self;
                let mut out = [0; 16];
                let mut i = 0;
                $( out[i] = Comp::bits($e); i += 1; )*
                let _ = i;
                out
            }
        }
        prim_fld!($t);
    };
}
/// Matrices: `cols` lists, column by column, the expressions of the components.
macro_rules! matr {
    ($t:ty, $c:ty, $n:literal, |$k:ident| $build:expr, |$v:ident, $col:ident, $row:ident| $e:expr) => {
        impl Prim for $t {
            type C = $c;
            const G1: G = G::M(<$c as Comp>::UNIT, $n);
            fn build(bits: &[u64; 16]) -> Self {
                let $k = |c: usize, r: usize| <$c as Comp>::from_bits(bits[c * $n + r]);
                $build
            }
            fn comps(&self) -> [u64; 16] {
                let $v = self;
                let mut out = [0; 16];
                let mut i = 0;
                while i < $n * $n {
                    let ($col, $row) = (i / $n, i % $n);
                    out[i] = Comp::bits($e);
                    i += 1;
                }
                out
            }
        }
        prim_fld!($t);
    };
}

macro_rules! mint_vecs {
    ($($c:ty),*) => {$(
        vect!(mint::Vector2<$c>, $c, 2, |k| mint::Vector2 { x: k(0), y: k(1) }, |v| [v.x, v.y]);
        vect!(mint::Vector3<$c>, $c, 3, |k| mint::Vector3 { x: k(0), y: k(1), z: k(2) }, |v| [v.x, v.y, v.z]);
        vect!(mint::Vector4<$c>, $c, 4, |k| mint::Vector4 { x: k(0), y: k(1), z: k(2), w: k(3) }, |v| [v.x, v.y, v.z, v.w]);
        vect!(mint::Point2<$c>, $c, 2, |k| mint::Point2 { x: k(0), y: k(1) }, |v| [v.x, v.y]);
        vect!(mint::Point3<$c>, $c, 3, |k| mint::Point3 { x: k(0), y: k(1), z: k(2) }, |v| [v.x, v.y, v.z]);
        vect!(cgmath::Vector2<$c>, $c, 2, |k| cgmath::Vector2 { x: k(0), y: k(1) }, |v| [v.x, v.y]);
        vect!(cgmath::Vector3<$c>, $c, 3, |k| cgmath::Vector3 { x: k(0), y: k(1), z: k(2) }, |v| [v.x, v.y, v.z]);
        vect!(cgmath::Vector4<$c>, $c, 4, |k| cgmath::Vector4 { x: k(0), y: k(1), z: k(2), w: k(3) }, |v| [v.x, v.y, v.z, v.w]);
        vect!(cgmath::Point2<$c>, $c, 2, |k| cgmath::Point2 { x: k(0), y: k(1) }, |v| [v.x, v.y]);
        vect!(cgmath::Point3<$c>, $c, 3, |k| cgmath::Point3 { x: k(0), y: k(1), z: k(2) }, |v| [v.x, v.y, v.z]);
        vect!(nalgebra::Vector2<$c>, $c, 2, |k| nalgebra::Vector2::new(k(0), k(1)), |v| [v[0], v[1]]);
        vect!(nalgebra::Vector3<$c>, $c, 3, |k| nalgebra::Vector3::new(k(0), k(1), k(2)), |v| [v[0], v[1], v[2]]);
        vect!(nalgebra::Vector4<$c>, $c, 4, |k| nalgebra::Vector4::new(k(0), k(1), k(2), k(3)), |v| [v[0], v[1], v[2], v[3]]);
        vect!(nalgebra::Point2<$c>, $c, 2, |k| nalgebra::Point2::new(k(0), k(1)), |v| [v.coords[0], v.coords[1]]);
        vect!(nalgebra::Point3<$c>, $c, 3, |k| nalgebra::Point3::new(k(0), k(1), k(2)), |v| [v.coords[0], v.coords[1], v.coords[2]]);
    )*};
}
mint_vecs!(f32, f64, i32, u32, bool);

macro_rules! glam_vecs {
    ($($c:ty: $v2:ident $v3:ident $v4:ident;)*) => {$(
        vect!(glam::$v2, $c, 2, |k| glam::$v2::new(k(0), k(1)), |v| [v.x, v.y]);
        vect!(glam::$v3, $c, 3, |k| glam::$v3::new(k(0), k(1), k(2)), |v| [v.x, v.y, v.z]);
        vect!(glam::$v4, $c, 4, |k| glam::$v4::new(k(0), k(1), k(2), k(3)), |v| [v.x, v.y, v.z, v.w]);
    )*};
}
glam_vecs! { f32: Vec2 Vec3 Vec4; f64: DVec2 DVec3 DVec4; i32: IVec2 IVec3 IVec4; u32: UVec2 UVec3 UVec4; }

fn at4<C: Copy>(a: [C; 4], i: usize) -> C {
    a[i]
}
macro_rules! mats {
    ($($c:ty: $m2:ident $m3:ident $m4:ident $v2:ident $v3:ident $v4:ident;)*) => {$(
        matr!(mint::ColumnMatrix2<$c>, $c, 2, |k| mint::ColumnMatrix2 {
            x: mint::Vector2 { x: k(0, 0), y: k(0, 1) }, y: mint::Vector2 { x: k(1, 0), y: k(1, 1) } },
            |m, c, r| { let v = if c == 0 { &m.x } else { &m.y }; if r == 0 { v.x } else { v.y } });
        matr!(mint::ColumnMatrix3<$c>, $c, 3, |k| mint::ColumnMatrix3 {
            x: mint::Vector3 { x: k(0, 0), y: k(0, 1), z: k(0, 2) },
            y: mint::Vector3 { x: k(1, 0), y: k(1, 1), z: k(1, 2) },
            z: mint::Vector3 { x: k(2, 0), y: k(2, 1), z: k(2, 2) } },
            |m, c, r| { let v = match c { 0 => &m.x, 1 => &m.y, _ => &m.z }; at4([v.x, v.y, v.z, v.z], r) });
        matr!(mint::ColumnMatrix4<$c>, $c, 4, |k| mint::ColumnMatrix4 {
            x: mint::Vector4 { x: k(0, 0), y: k(0, 1), z: k(0, 2), w: k(0, 3) },
            y: mint::Vector4 { x: k(1, 0), y: k(1, 1), z: k(1, 2), w: k(1, 3) },
            z: mint::Vector4 { x: k(2, 0), y: k(2, 1), z: k(2, 2), w: k(2, 3) },
            w: mint::Vector4 { x: k(3, 0), y: k(3, 1), z: k(3, 2), w: k(3, 3) } },
            |m, c, r| { let v = match c { 0 => &m.x, 1 => &m.y, 2 => &m.z, _ => &m.w }; at4([v.x, v.y, v.z, v.w], r) });
        matr!(cgmath::Matrix2<$c>, $c, 2, |k| cgmath::Matrix2 {
            x: cgmath::Vector2 { x: k(0, 0), y: k(0, 1) }, y: cgmath::Vector2 { x: k(1, 0), y: k(1, 1) } },
            |m, c, r| { let v = if c == 0 { &m.x } else { &m.y }; if r == 0 { v.x } else { v.y } });
        matr!(cgmath::Matrix3<$c>, $c, 3, |k| cgmath::Matrix3 {
            x: cgmath::Vector3 { x: k(0, 0), y: k(0, 1), z: k(0, 2) },
            y: cgmath::Vector3 { x: k(1, 0), y: k(1, 1), z: k(1, 2) },
            z: cgmath::Vector3 { x: k(2, 0), y: k(2, 1), z: k(2, 2) } },
            |m, c, r| { let v = match c { 0 => &m.x, 1 => &m.y, _ => &m.z }; at4([v.x, v.y, v.z, v.z], r) });
        matr!(cgmath::Matrix4<$c>, $c, 4, |k| cgmath::Matrix4 {
            x: cgmath::Vector4 { x: k(0, 0), y: k(0, 1), z: k(0, 2), w: k(0, 3) },
            y: cgmath::Vector4 { x: k(1, 0), y: k(1, 1), z: k(1, 2), w: k(1, 3) },
            z: cgmath::Vector4 { x: k(2, 0), y: k(2, 1), z: k(2, 2), w: k(2, 3) },
            w: cgmath::Vector4 { x: k(3, 0), y: k(3, 1), z: k(3, 2), w: k(3, 3) } },
            |m, c, r| { let v = match c { 0 => &m.x, 1 => &m.y, 2 => &m.z, _ => &m.w }; at4([v.x, v.y, v.z, v.w], r) });
        matr!(glam::$m2, $c, 2, |k| glam::$m2::from_cols(
            glam::$v2::new(k(0, 0), k(0, 1)), glam::$v2::new(k(1, 0), k(1, 1))),
            |m, c, r| { let v = if c == 0 { m.x_axis } else { m.y_axis }; if r == 0 { v.x } else { v.y } });
        matr!(glam::$m3, $c, 3, |k| glam::$m3::from_cols(
            glam::$v3::new(k(0, 0), k(0, 1), k(0, 2)), glam::$v3::new(k(1, 0), k(1, 1), k(1, 2)), glam::$v3::new(k(2, 0), k(2, 1), k(2, 2))),
            |m, c, r| { let v = match c { 0 => m.x_axis, 1 => m.y_axis, _ => m.z_axis }; at4([v.x, v.y, v.z, v.z], r) });
        matr!(glam::$m4, $c, 4, |k| glam::$m4::from_cols(
            glam::$v4::new(k(0, 0), k(0, 1), k(0, 2), k(0, 3)), glam::$v4::new(k(1, 0), k(1, 1), k(1, 2), k(1, 3)),
            glam::$v4::new(k(2, 0), k(2, 1), k(2, 2), k(2, 3)), glam::$v4::new(k(3, 0), k(3, 1), k(3, 2), k(3, 3))),
            |m, c, r| { let v = match c { 0 => m.x_axis, 1 => m.y_axis, 2 => m.z_axis, _ => m.w_axis }; at4([v.x, v.y, v.z, v.w], r) });
        // nalgebra's `new` takes row-major arguments; m[(row, column)].
        matr!(nalgebra::Matrix2<$c>, $c, 2, |k| nalgebra::Matrix2::new(k(0, 0), k(1, 0), k(0, 1), k(1, 1)), |m, c, r| m[(r, c)]);
        matr!(nalgebra::Matrix3<$c>, $c, 3, |k| nalgebra::Matrix3::new(
            k(0, 0), k(1, 0), k(2, 0), k(0, 1), k(1, 1), k(2, 1), k(0, 2), k(1, 2), k(2, 2)), |m, c, r| m[(r, c)]);
        matr!(nalgebra::Matrix4<$c>, $c, 4, |k| nalgebra::Matrix4::new(
            k(0, 0), k(1, 0), k(2, 0), k(3, 0), k(0, 1), k(1, 1), k(2, 1), k(3, 1),
            k(0, 2), k(1, 2), k(2, 2), k(3, 2), k(0, 3), k(1, 3), k(2, 3), k(3, 3)), |m, c, r| m[(r, c)]);
    )*};
}
mats! { f32: Mat2 Mat3 Mat4 Vec2 Vec3 Vec4; f64: DMat2 DMat3 DMat4 DVec2 DVec3 DVec4; }

/// `<() as Is<T>>::It` is T, spelt so that only the compiler can tell.
pub trait Is<T> {
    type It;
}
impl<T> Is<T> for () {
    type It = T;
}
