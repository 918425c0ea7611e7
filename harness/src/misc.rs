//! C07 booleans, C12 dynamic uniforms, C13 GLSL names, C14 array strides.
use crate::spec::Lay::*;
use crate::structs::*;
use crate::writer::*;
use core::mem::size_of;
use crevice::glsl::GlslField;
use crevice::std140::{self, DynamicUniform, Std140};
use crevice::std430::{self, Std430};
use std::cell::RefCell;

// ---------------------------------------------------------------- C07

fn words<F: bytemuck::Pod, const N: usize>(f: &F) -> [u32; N]
where
    [u32; N]: bytemuck::Pod,
{
    check!(size_of::<F>() == 4 * N, "post: each bool takes four bytes");
    bytemuck::cast(*f)
}
/// Encoding: 1 for true, 0 for false. Decoding: any word, false exactly when 0.
fn bools<T: Prim<C = bool> + Fld, const N: usize>()
where
    [u32; N]: bytemuck::Pod,
{
    let v = T::nd();
    let c = v.comps();
    let a: [u32; N] = words(&v.as_std140());
    let b: [u32; N] = words(&v.as_std430());
    let mut i = 0;
    while i < N {
        check!(a[i] == c[i] as u32, "post: std140 encodes true as 1 and false as 0");
        check!(b[i] == c[i] as u32, "post: std430 encodes true as 1 and false as 0");
        i += 1;
    }
    let mut w = [0u32; N];
    let mut i = 0;
    while i < N {
        w[i] = nd::u32();
        i += 1;
    }
    let p = T::from_std140(bytemuck::cast(w)).comps();
    let q = T::from_std430(bytemuck::cast(w)).comps();
    let mut i = 0;
    while i < N {
        check!((p[i] == 1) == (w[i] != 0), "post: std140 decodes every nonzero word as true");
        check!((q[i] == 1) == (w[i] != 0), "post: std430 decodes every nonzero word as true");
        i += 1;
    }
}
pub fn c07_bool() {
    bools::<bool, 1>();
    // Bool itself.
    let w = nd::u32();
    let b: std140::Bool = bytemuck::cast(w);
    check!(bool::from(b) == (w != 0), "post: Bool is true exactly when its word is nonzero");
    let x = nd::boolean();
    let e: u32 = bytemuck::cast(std140::Bool::from(x));
    check!(e == x as u32, "post: Bool encodes true as 1 and false as 0");
}
pub fn c07_mint() {
    bools::<mint::Vector2<bool>, 2>();
    bools::<mint::Vector3<bool>, 3>();
    bools::<mint::Vector4<bool>, 4>();
    bools::<mint::Point2<bool>, 2>();
    bools::<mint::Point3<bool>, 3>();
}
pub fn c07_cgmath() {
    bools::<cgmath::Vector2<bool>, 2>();
    bools::<cgmath::Vector3<bool>, 3>();
    bools::<cgmath::Vector4<bool>, 4>();
    bools::<cgmath::Point2<bool>, 2>();
    bools::<cgmath::Point3<bool>, 3>();
}
pub fn c07_nalgebra() {
    bools::<nalgebra::Vector2<bool>, 2>();
    bools::<nalgebra::Vector3<bool>, 3>();
    bools::<nalgebra::Vector4<bool>, 4>();
    bools::<nalgebra::Point2<bool>, 2>();
    bools::<nalgebra::Point3<bool>, 3>();
}
/// A struct of booleans: words at the GLSL offsets, arbitrary words decoded.
pub fn c07_struct() {
    let v = Bools::nd();
    macro_rules! layout {
        ($as:ident, $as_fn:ident, $from:ident, $l:expr) => {{
            let form = v.$as_fn();
            let got = bytemuck::bytes_of(&form);
            check!(got.len() >= Bools::SIZE[$l as usize], "post: form is large enough for its fields");
            check!(v.stands($l, got, 0), "post: every bool is a word of 1 or 0 at its GLSL offset");
            let mut form = form;
            let w = nd::u32();
            let k = nd::below(12);
            let m = &Bools::GL.table($l);
            // Field and component of the k-th bool.
            let (f, c) = match k { 0 => (0, 0), 1..=3 => (1, k - 1), 4 => (2, 0), 5 | 6 => (3, k - 5), 7..=10 => (4, k - 7), _ => (5, 0) };
            let at = m[f] + 4 * c;
            let bytes = bytemuck::bytes_of_mut(&mut form);
            let wb = w.to_ne_bytes();
            let mut i = 0;
            while i < 4 {
                bytes[at + i] = wb[i];
                i += 1;
            }
            let d = <Bools as $as>::$from(form);
            let all = [d.a, d.b.x, d.b.y, d.b.z, d.c, d.d.x, d.d.y, d.e.x, d.e.y, d.e.z, d.e.w, d.f];
            check!(all[k] == (w != 0), "post: every nonzero word of a struct decodes as true");
        }};
    }
    layout!(AsStd140, as_std140, from_std140, L140);
    layout!(AsStd430, as_std430, from_std430, L430);
}

// ---------------------------------------------------------------- C12

fn wrap<T: Fld>() {
    type O<T> = <T as AsStd140>::Output;
    type D<T> = <DynamicUniform<T> as AsStd140>::Output;
    check!(size_of::<D<T>>() == size_of::<O<T>>(), "post: wrapping keeps the size");
    check!(DynamicUniform::<T>::std140_size_static() == size_of::<O<T>>(), "post: wrapping keeps the reported size");
    let a = O::<T>::ALIGNMENT;
    check!(D::<T>::ALIGNMENT == if a > 256 { a } else { 256 }, "post: alignment is the larger of 256 and the inner one");
    let v = T::nd();
    let inner = v.as_std140();
    let d = DynamicUniform(v);
    let form = d.as_std140();
    crate::nd::same_bytes(form.as_bytes(), inner.as_bytes());
    crate::nd::same_bytes(bytemuck::bytes_of(&form), bytemuck::bytes_of(&inner));
    let back = DynamicUniform::<T>::from_std140(form);
    check!(back.0.same(&d.0), "post: wrapped value decodes to the inner value");
}
pub fn c12_prims() {
    wrap::<f32>();
    wrap::<bool>();
    wrap::<f64>();
    wrap::<mint::Vector3<f32>>();
    wrap::<mint::Vector2<u32>>();
}
pub fn c12_mats() {
    wrap::<mint::ColumnMatrix3<f32>>();
    wrap::<nalgebra::Matrix2<f64>>();
}
pub fn c12_structs() {
    wrap::<Nest2>();
    wrap::<Scal>();
}
pub fn c12_raw() {
    wrap::<Raw<5, 1>>();
    wrap::<Raw<5, 64>>();
    wrap::<Raw<8, 256>>();
    wrap::<Raw<8, 512>>();
    wrap::<Raw<3, 4096>>();
}
fn placed<T: Fld>(bits: usize) {
    let mut z = std140::Sizer::new();
    macro_rules! offset {
        ($($k:literal)*) => { $( if bits >> $k & 1 == 1 { z.add::<Raw<{ 1 << $k }, 1>>(); } )* };
    }
    offset!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31);
    let a = <T as AsStd140>::Output::ALIGNMENT;
    let a = if a > 256 { a } else { 256 };
    let p = z.len();
    let r = z.add::<DynamicUniform<T>>();
    check!(r % a == 0 && r >= p && r - p < a, "post: wrapped value starts at the next multiple of 256");
}
pub fn c12_sizer() {
    let bits = nd::u32() as usize;
    placed::<f32>(bits);
    placed::<Raw<8, 512>>(bits);
    placed::<Nest2>(bits);
}
/// Histories of wrapped values written by a writer (native).
pub fn c12_writer() {
    let s = Sink::reliable();
    let mut m = Buf::new();
    let mut w = std140::Writer::new(Rec(&s));
    fn one<T: Fld>(w: &mut std140::Writer<Rec>, m: &mut Buf) {
        let v = T::nd();
        let form = v.as_std140();
        let a = <T as AsStd140>::Output::ALIGNMENT;
        let at = m.put(if a > 256 { a } else { 256 }, form.as_bytes());
        check!(matches!(w.write(&DynamicUniform(v)), Ok(o) if o == at), "post: wrapped value starts at the next multiple of 256");
    }
    for _ in 0..nd::below(6) {
        match nd::below(5) {
            0 => one::<f32>(&mut w, &mut m),
            1 => one::<Nest2>(&mut w, &mut m),
            2 => one::<Raw<8, 512>>(&mut w, &mut m),
            3 => one::<Raw<300, 4>>(&mut w, &mut m),
            _ => {
                let b = [5u8; 3];
                check!(w.write(&Raw::<3, 1>(b)).is_ok(), "post: a write to a reliable sink succeeds");
                m.push(&b);
            }
        }
        check!(w.len() == m.n, "post: length is the number of bytes sent");
    }
    s.borrow().got.same(&m);
}

// ---------------------------------------------------------------- C13

const fn eq(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
/// `name` is the GLSL name of the type with component prefix p and shape g.
const fn is_name(name: &str, p: &str, scalar: &str, g: G) -> bool {
    let (base, n) = match g {
        G::S(_) => return eq(name, scalar),
        G::V(_, n) => ("vec", n),
        G::M(_, n) => ("mat", n),
        _ => return false,
    };
    let (a, p, b) = (name.as_bytes(), p.as_bytes(), base.as_bytes());
    if a.len() != p.len() + 4 {
        return false;
    }
    let mut i = 0;
    while i < p.len() {
        if a[i] != p[i] {
            return false;
        }
        i += 1;
    }
    let mut i = 0;
    while i < 3 {
        if a[p.len() + i] != b[i] {
            return false;
        }
        i += 1;
    }
    a[p.len() + 3] == b'0' + n as u8
}
struct Name<T>(core::marker::PhantomData<T>);
impl<T: Prim + Fld + Glsl> Name<T> {
    const OK: bool = is_name(<T as Glsl>::NAME, <T::C as Comp>::PREFIX, <T::C as Comp>::SCALAR, T::G1);
    const FORM: bool = size_of::<<T as AsStd140>::Output>() == T::SIZE[0]
        && size_of::<<T as AsStd430>::Output>() == T::SIZE[1]
        && <T as AsStd140>::Output::ALIGNMENT == T::GL.align(L140)
        && <T as AsStd430>::Output::ALIGNMENT == T::GL.align(L430);
}
fn name<T: Prim + Fld + Glsl>() {
    if nd::native() && !Name::<T>::OK {
        panic!("post: GLSL name of {} is {:?}", core::any::type_name::<T>(), <T as Glsl>::NAME);
    }
    check!(Name::<T>::OK, "post: GLSL name of the type");
    check!(Name::<T>::FORM, "post: the encoded form has the layout of the named type");
}
macro_rules! names {
    ($($f:ident: [$($t:ty),*];)*) => { $( pub fn $f() { $( name::<$t>(); )* } )* };
}
names! {
    c13_scalars: [f32, f64, i32, u32];
    c13_mint: [mint::Vector2<f32>, mint::Vector3<f32>, mint::Vector4<f32>, mint::Point2<f32>, mint::Point3<f32>, mint::Vector2<f64>, mint::Vector3<f64>, mint::Vector4<f64>, mint::Point2<f64>, mint::Point3<f64>, mint::Vector2<i32>, mint::Vector3<i32>, mint::Vector4<i32>, mint::Point2<i32>, mint::Point3<i32>, mint::Vector2<u32>, mint::Vector3<u32>, mint::Vector4<u32>, mint::Point2<u32>, mint::Point3<u32>, mint::Vector2<bool>, mint::Vector3<bool>, mint::Vector4<bool>, mint::Point2<bool>, mint::Point3<bool>, mint::ColumnMatrix2<f32>, mint::ColumnMatrix3<f32>, mint::ColumnMatrix4<f32>, mint::ColumnMatrix2<f64>, mint::ColumnMatrix3<f64>, mint::ColumnMatrix4<f64>];
    c13_cgmath: [cgmath::Vector2<f32>, cgmath::Vector3<f32>, cgmath::Vector4<f32>, cgmath::Point2<f32>, cgmath::Point3<f32>, cgmath::Vector2<f64>, cgmath::Vector3<f64>, cgmath::Vector4<f64>, cgmath::Point2<f64>, cgmath::Point3<f64>, cgmath::Vector2<i32>, cgmath::Vector3<i32>, cgmath::Vector4<i32>, cgmath::Point2<i32>, cgmath::Point3<i32>, cgmath::Vector2<u32>, cgmath::Vector3<u32>, cgmath::Vector4<u32>, cgmath::Point2<u32>, cgmath::Point3<u32>, cgmath::Vector2<bool>, cgmath::Vector3<bool>, cgmath::Vector4<bool>, cgmath::Point2<bool>, cgmath::Point3<bool>, cgmath::Matrix2<f32>, cgmath::Matrix3<f32>, cgmath::Matrix4<f32>, cgmath::Matrix2<f64>, cgmath::Matrix3<f64>, cgmath::Matrix4<f64>];
    c13_nalgebra: [nalgebra::Vector2<f32>, nalgebra::Vector3<f32>, nalgebra::Vector4<f32>, nalgebra::Point2<f32>, nalgebra::Point3<f32>, nalgebra::Vector2<f64>, nalgebra::Vector3<f64>, nalgebra::Vector4<f64>, nalgebra::Point2<f64>, nalgebra::Point3<f64>, nalgebra::Vector2<i32>, nalgebra::Vector3<i32>, nalgebra::Vector4<i32>, nalgebra::Point2<i32>, nalgebra::Point3<i32>, nalgebra::Vector2<u32>, nalgebra::Vector3<u32>, nalgebra::Vector4<u32>, nalgebra::Point2<u32>, nalgebra::Point3<u32>, nalgebra::Vector2<bool>, nalgebra::Vector3<bool>, nalgebra::Vector4<bool>, nalgebra::Point2<bool>, nalgebra::Point3<bool>, nalgebra::Matrix2<f32>, nalgebra::Matrix3<f32>, nalgebra::Matrix4<f32>, nalgebra::Matrix2<f64>, nalgebra::Matrix3<f64>, nalgebra::Matrix4<f64>];
    c13_glam: [glam::Vec2, glam::Vec3, glam::Vec4, glam::DVec2, glam::DVec3, glam::DVec4, glam::IVec2, glam::IVec3, glam::IVec4, glam::UVec2, glam::UVec3, glam::UVec4, glam::Mat2, glam::Mat3, glam::Mat4, glam::DMat2, glam::DMat3, glam::DMat4];
}
/// The forms' own names.
pub fn c13_forms() {
    macro_rules! forms {
        ($($t:ident $n:literal)*) => { $(
            check!(eq(<std140::$t as Glsl>::NAME, $n), "post: GLSL name of the std140 form");
            check!(eq(<std430::$t as Glsl>::NAME, $n), "post: GLSL name of the std430 form");
        )* };
    }
    forms! {
        Vec2 "vec2" Vec3 "vec3" Vec4 "vec4" IVec2 "ivec2" IVec3 "ivec3" IVec4 "ivec4" UVec2 "uvec2" UVec3 "uvec3" UVec4 "uvec4"
        BVec2 "bvec2" BVec3 "bvec3" BVec4 "bvec4" DVec2 "dvec2" DVec3 "dvec3" DVec4 "dvec4"
        Mat2 "mat2" Mat3 "mat3" Mat4 "mat4" DMat2 "dmat2" DMat3 "dmat3" DMat4 "dmat4"
    }
}

/// Defines structs that derive GlslStruct and what is to be generated for them.
#[macro_export]
macro_rules! gst {
    ($($n:ident $ns:literal { $($f:ident $fs:literal: $t:ty = $ts:literal),* $(,)? })*) => {$(
        #[derive(crevice::glsl::GlslStruct)]
        #[allow(dead_code, non_camel_case_types)]
        pub struct $n { $(pub $f: $t),* }
        $crate::described!($n $ns { $($f $fs: $t = $ts),* });
    )*};
}
#[macro_export]
macro_rules! described {
    ($($n:ident $ns:literal { $($f:ident $fs:literal: $t:ty = $ts:literal),* $(,)? })*) => {$(
        impl $crate::misc::Described for $n {
            const WANT: (&'static str, &'static [(&'static str, &'static str)], &'static str) = ($ns, &[$(($ts, $fs)),*],
                concat!("struct ", $ns, " {\n", $("\t", $ts, " ", $fs, ";\n",)* "};"));
        }
    )*};
}
pub trait Described: GlslStruct {
    const WANT: (&'static str, &'static [(&'static str, &'static str)], &'static str);
}
type V3 = mint::Vector3<f32>;
type B3 = mint::Vector3<bool>;
gst! {
    GOne "GOne" { a "a": f32 = "float" }
    GEmpty "GEmpty" { }
    GScal "GScal" { b "b": f64 = "double", a "a": i32 = "int", c "c": u32 = "uint", d "d": f32 = "float" }
    GRaw "GRaw" { r#type "type": f32 = "float", r#fn "fn": V3 = "vec3", plain "plain": u32 = "uint", r#loop "loop": B3 = "bvec3" }
    r#mod "mod" { r#ref "ref": f32 = "float" }
    GNest "GNest" { z "z": GOne = "GOne", y "y": GRaw = "GRaw", m "m": mint::ColumnMatrix4<f32> = "mat4", o "o": r#mod = "mod" }
    GLibs "GLibs" { a "a": glam::DMat3 = "dmat3", bb "bb": nalgebra::Point3<u32> = "uvec3", c_c "c_c": cgmath::Vector2<i32> = "ivec2",
        d0 "d0": std140::BVec4 = "bvec4", e "e": std430::DVec2 = "dvec2" }
    GLong "GLong" { a0 "a0": f32 = "float", a1 "a1": V3 = "vec3", a2 "a2": f32 = "float", a3 "a3": V3 = "vec3", a4 "a4": f32 = "float",
        a5 "a5": V3 = "vec3", a6 "a6": f64 = "double", a7 "a7": u32 = "uint", a8 "a8": f32 = "float", a9 "a9": V3 = "vec3", a10 "a10": f32 = "float" }
}
struct Facts<T>(core::marker::PhantomData<T>);
impl<T: Described> Facts<T> {
    const NAME_OK: bool = eq(<T as Glsl>::NAME, T::WANT.0);
    const FIELDS_OK: bool = {
        let (got, want): (&[GlslField], _) = (<T as GlslStruct>::FIELDS, T::WANT.1);
        let mut ok = got.len() == want.len();
        let mut i = 0;
        while ok && i < got.len() {
            ok = eq(got[i].ty, want[i].0) && eq(got[i].name, want[i].1);
            i += 1;
        }
        ok
    };
}
pub fn described<T: Described>() {
    if nd::native() {
        check!(T::glsl_definition() == T::WANT.2, "post: GLSL definition");
    }
    check!(Facts::<T>::NAME_OK, "post: GLSL name of the struct");
    check!(Facts::<T>::FIELDS_OK, "post: GLSL fields of the struct, in order");
}
/// The definition text of a small struct (the general text is decided by the contract on
/// glsl_definition).
pub fn c13_text() {
    let d = GOne::glsl_definition();
    check!(eq(&d, GOne::WANT.2), "post: GLSL definition");
}
pub fn c13_structs() {
    described::<GOne>();
    described::<GEmpty>();
    described::<GScal>();
    described::<GRaw>();
    described::<r#mod>();
    described::<GNest>();
    described::<GLibs>();
    described::<GLong>();
}

// ---------------------------------------------------------------- C14

/// (layout, type, element stride in the sink, GLSL array stride)
pub struct Stride(pub &'static str, pub &'static str, pub usize, pub usize);

macro_rules! strides {
    ($([$($t:ty),*];)*) => {
        /// Measures the stride of every element type on the real writers.
        pub fn strides() -> Vec<Stride> {
            let mut v = Vec::new();
            $($(
                for n in [2, 3, 4, 5, 8, 9, 16, 17, 33] {
                    v.push(Stride("std140", stringify!($t), measured140::<$t>(n), T140::<$t>::STRIDE));
                    v.push(Stride("std430", stringify!($t), measured430::<$t>(n), T430::<$t>::STRIDE));
                }
            )*)*
            v
        }
    };
}
struct T140<T>(core::marker::PhantomData<T>);
impl<T: Fld> T140<T> {
    const STRIDE: usize = T::GL.array_stride(L140);
}
struct T430<T>(core::marker::PhantomData<T>);
impl<T: Fld> T430<T> {
    const STRIDE: usize = T::GL.array_stride(L430);
}
macro_rules! measure {
    ($f:ident, $m:ident, $as_fn:ident) => {
        /// The distance of consecutive elements' bytes in the sink (0 if it is not uniform). The
        /// elements are located by the offsets that a writer returns for the growing prefixes.
        fn $f<T: Fld>(n: usize) -> usize {
            let mut e: Vec<T> = Vec::new();
            for _ in 0..n {
                e.push(T::nd());
            }
            let mut out = Vec::new();
            let mut w = $m::Writer::new(&mut out);
            let first = w.write(e.as_slice()).unwrap_or(usize::MAX);
            let len = w.len();
            let size = bytemuck::bytes_of(&e[0].$as_fn()).len();
            if len != out.len() || first != 0 || len < size || (len - size) % (n - 1) != 0 {
                return 0;
            }
            let d = (len - size) / (n - 1);
            for (i, x) in e.iter().enumerate() {
                if &out[i * d..i * d + size] != bytemuck::bytes_of(&x.$as_fn()) {
                    return 0;
                }
            }
            d
        }
    };
}
measure!(measured140, std140, as_std140);
measure!(measured430, std430, as_std430);
strides! {
    [f32, f64, i32, u32, bool];
    [mint::Vector2<f32>, mint::Vector3<f32>, mint::Vector4<f32>, mint::Vector2<f64>, mint::Vector3<f64>, mint::Vector4<f64>];
    [mint::Vector2<i32>, mint::Vector3<i32>, mint::Vector4<i32>, mint::Vector2<u32>, mint::Vector3<u32>, mint::Vector4<u32>];
    [mint::Vector2<bool>, mint::Vector3<bool>, mint::Vector4<bool>];
    [mint::ColumnMatrix2<f32>, mint::ColumnMatrix3<f32>, mint::ColumnMatrix4<f32>];
    [mint::ColumnMatrix2<f64>, mint::ColumnMatrix3<f64>, mint::ColumnMatrix4<f64>];
    [One, OneD, OneB, Asc, Desc, Zig, Scal, Long16, Mats, DMats, DMat4s, Lists, In1, In2, Nest1, Nest2, Nest3, Nest4, HasEmpty, Bools, Big];
}
/// The stride that the contract of a slice write gives: the element's size rounded up to its
/// alignment. `known` types (see known_findings.txt) are not claimed.
const fn contract_stride(size: usize, align: usize) -> usize {
    crate::spec::up(size, align)
}
fn stride140<T: Fld>() {
    check!(contract_stride(size_of::<<T as AsStd140>::Output>(), <T as AsStd140>::Output::ALIGNMENT) == T140::<T>::STRIDE, "post: std140 elements are one array stride apart");
}
fn stride430<T: Fld>() {
    check!(contract_stride(size_of::<<T as AsStd430>::Output>(), <T as AsStd430>::Output::ALIGNMENT) == T430::<T>::STRIDE, "post: std430 elements are one array stride apart");
}
macro_rules! claims {
    ($f:ident; $($t:ty),*) => { $( $f::<$t>(); )* };
}
pub fn c14_std140() {
    claims!(stride140; mint::Vector3<f32>, mint::Vector4<f32>, mint::Vector2<f64>, mint::Vector3<f64>, mint::Vector4<f64>,
        mint::Vector3<i32>, mint::Vector4<i32>, mint::Vector3<u32>, mint::Vector4<u32>, mint::Vector3<bool>, mint::Vector4<bool>,
        mint::ColumnMatrix2<f32>, mint::ColumnMatrix3<f32>, mint::ColumnMatrix4<f32>,
        mint::ColumnMatrix2<f64>, mint::ColumnMatrix3<f64>, mint::ColumnMatrix4<f64>,
        One, OneD, OneB, Asc, Desc, Zig, Scal, Long16, Mats, DMats, DMat4s, Lists, In1, In2, Nest1, Nest2, Nest3, Nest4, HasEmpty, Bools, Big);
}
pub fn c14_std430() {
    claims!(stride430; f32, f64, i32, u32, bool, mint::Vector2<f32>, mint::Vector2<i32>, mint::Vector2<u32>, mint::Vector2<bool>,
        mint::Vector3<f32>, mint::Vector4<f32>, mint::Vector2<f64>, mint::Vector3<f64>, mint::Vector4<f64>,
        mint::Vector3<i32>, mint::Vector4<i32>, mint::Vector3<u32>, mint::Vector4<u32>, mint::Vector3<bool>, mint::Vector4<bool>,
        mint::ColumnMatrix2<f32>, mint::ColumnMatrix3<f32>, mint::ColumnMatrix4<f32>,
        mint::ColumnMatrix2<f64>, mint::ColumnMatrix3<f64>, mint::ColumnMatrix4<f64>,
        One, OneD, OneB, Asc, Desc, Zig, Scal, Long16, Mats, DMats, DMat4s, Lists, In1, In2, Nest1, Nest2, Nest3, Nest4, HasEmpty, Bools, Big);
}

#[cfg(kani)]
mod proofs {
    macro_rules! p {
        ($($f:ident)*) => {$(
            #[kani::proof]
            fn $f() { super::$f(); crate::nd::reached(); }
        )*};
    }
    p! { c07_bool c07_mint c07_cgmath c07_nalgebra c07_struct c12_prims c12_mats c12_structs c12_raw c12_sizer
        c13_scalars c13_mint c13_cgmath c13_nalgebra c13_glam c13_forms c13_structs c14_std140 c14_std430 }
    #[kani::proof]
    #[kani::unwind(40)]
    fn c13_text() { super::c13_text(); crate::nd::reached(); }
}
