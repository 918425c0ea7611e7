//! C04, C05, C06: contracts of the conversions, per type and layout.
use crate::nd;
use crate::spec::Lay::{self, *};
use crate::structs::*;
use crevice::std140::Std140;
use crevice::std430::Std430;

/// C04: exactly size_of bytes; zero outside the components.
pub fn padding<T: Fld>() {
    let v = T::nd();
    nd::dirty();
    let a = v.as_std140();
    pad_bytes::<T>(L140, a.as_bytes());
    nd::dirty();
    let b = v.as_std430();
    pad_bytes::<T>(L430, b.as_bytes());
}
/// C04: the byte view of a derived form is all of it.
pub fn views<T: Derived>() {
    let v = T::nd();
    let (a, b) = (v.as_std140(), v.as_std430());
    crate::nd::same_bytes(T::view140(&a), bytemuck::bytes_of(&a));
    crate::nd::same_bytes(T::view430(&b), bytemuck::bytes_of(&b));
}
pub fn c04_views() {
    views::<One>();
    views::<Small>();
    views::<Big>();
    views::<Nest3>();
}
#[cfg(kani)]
mod view_proofs {
    #[kani::proof]
    fn c04() {
        super::c04_views();
        crate::nd::reached()
    }
}
fn pad_bytes<T: Fld>(l: Lay, got: &[u8]) {
    let n = T::SIZE[l as usize];
    check!(got.len() == n, "post: byte view covers exactly the form");
    if n == 0 {
        return;
    }
    let m = &T::MARK[l as usize];
    let k = nd::below(n);
    if nd::native() {
        for i in 0..n {
            check!(m[i] || got[i] == 0, "post: padding byte is zero");
        }
    } else {
        check!(m[k] || got[k] == 0, "post: padding byte is zero");
    }
}

/// C06: every component at its GLSL offset in native byte order.
pub fn placement<T: Fld>() {
    let v = T::nd();
    let a = v.as_std140();
    place_bytes(&v, L140, a.as_bytes());
    let b = v.as_std430();
    place_bytes(&v, L430, b.as_bytes());
}
fn place_bytes<T: Fld>(v: &T, l: Lay, got: &[u8]) {
    let n = T::SIZE[l as usize];
    check!(got.len() >= n, "post: form is large enough for its components");
    check!(v.stands(l, got, 0), "post: every component at its GLSL offset");
}

/// C05: decode . encode is the identity on component bits.
pub fn round_trip<T: Fld>() {
    let v = T::nd();
    let w = T::from_std140(v.as_std140());
    check!(v.same(&w), "post: std140 round trip returns the same bits");
    let w = T::from_std430(v.as_std430());
    check!(v.same(&w), "post: std430 round trip returns the same bits");
}

macro_rules! groups {
    ($($name:ident: [$($t:ty),* $(,)?];)*) => {
        pub mod c04 { use super::*; $(pub fn $name() { $(super::padding::<$t>();)* })* }
        pub mod c05 { use super::*; $(pub fn $name() { $(super::round_trip::<$t>();)* })* }
        pub mod c06 { use super::*; $(pub fn $name() { $(super::placement::<$t>();)* })* }
        #[cfg(not(kani))]
        pub fn all() -> Vec<(&'static str, fn())> {
            let mut v: Vec<(&'static str, fn())> = Vec::new();
            $(
                v.push((concat!("C04/conv::proofs::", stringify!($name), "::c04"), c04::$name));
                v.push((concat!("C05/conv::proofs::", stringify!($name), "::c05"), c05::$name));
                v.push((concat!("C06/conv::proofs::", stringify!($name), "::c06"), c06::$name));
            )*
            v
        }
        #[cfg(kani)]
        mod proofs {
            $(#[allow(non_snake_case)] mod $name {
                #[kani::proof] fn c04() { super::super::c04::$name(); crate::nd::reached() }
                #[kani::proof] fn c05() { super::super::c05::$name(); crate::nd::reached() }
                #[kani::proof] fn c06() { super::super::c06::$name(); crate::nd::reached() }
            })*
        }
    };
}
groups! {
    scalars: [f32, f64, i32, u32, bool];
    mint_f32: [mint::Vector2<f32>, mint::Vector3<f32>, mint::Vector4<f32>, mint::Point2<f32>, mint::Point3<f32>];
    mint_f64: [mint::Vector2<f64>, mint::Vector3<f64>, mint::Vector4<f64>, mint::Point2<f64>, mint::Point3<f64>];
    mint_i32: [mint::Vector2<i32>, mint::Vector3<i32>, mint::Vector4<i32>, mint::Point2<i32>, mint::Point3<i32>];
    mint_u32: [mint::Vector2<u32>, mint::Vector3<u32>, mint::Vector4<u32>, mint::Point2<u32>, mint::Point3<u32>];
    mint_bool: [mint::Vector2<bool>, mint::Vector3<bool>, mint::Vector4<bool>, mint::Point2<bool>, mint::Point3<bool>];
    mint_mat2_f32: [mint::ColumnMatrix2<f32>];
    mint_mat3_f32: [mint::ColumnMatrix3<f32>];
    mint_mat4_f32: [mint::ColumnMatrix4<f32>];
    mint_mat2_f64: [mint::ColumnMatrix2<f64>];
    mint_mat3_f64: [mint::ColumnMatrix3<f64>];
    mint_mat4_f64: [mint::ColumnMatrix4<f64>];
    cgmath_f32: [cgmath::Vector2<f32>, cgmath::Vector3<f32>, cgmath::Vector4<f32>, cgmath::Point2<f32>, cgmath::Point3<f32>];
    cgmath_f64: [cgmath::Vector2<f64>, cgmath::Vector3<f64>, cgmath::Vector4<f64>, cgmath::Point2<f64>, cgmath::Point3<f64>];
    cgmath_i32: [cgmath::Vector2<i32>, cgmath::Vector3<i32>, cgmath::Vector4<i32>, cgmath::Point2<i32>, cgmath::Point3<i32>];
    cgmath_u32: [cgmath::Vector2<u32>, cgmath::Vector3<u32>, cgmath::Vector4<u32>, cgmath::Point2<u32>, cgmath::Point3<u32>];
    cgmath_bool: [cgmath::Vector2<bool>, cgmath::Vector3<bool>, cgmath::Vector4<bool>, cgmath::Point2<bool>, cgmath::Point3<bool>];
    cgmath_mat2_f32: [cgmath::Matrix2<f32>];
    cgmath_mat3_f32: [cgmath::Matrix3<f32>];
    cgmath_mat4_f32: [cgmath::Matrix4<f32>];
    cgmath_mat2_f64: [cgmath::Matrix2<f64>];
    cgmath_mat3_f64: [cgmath::Matrix3<f64>];
    cgmath_mat4_f64: [cgmath::Matrix4<f64>];
    nalgebra_f32: [nalgebra::Vector2<f32>, nalgebra::Vector3<f32>, nalgebra::Vector4<f32>, nalgebra::Point2<f32>, nalgebra::Point3<f32>];
    nalgebra_f64: [nalgebra::Vector2<f64>, nalgebra::Vector3<f64>, nalgebra::Vector4<f64>, nalgebra::Point2<f64>, nalgebra::Point3<f64>];
    nalgebra_i32: [nalgebra::Vector2<i32>, nalgebra::Vector3<i32>, nalgebra::Vector4<i32>, nalgebra::Point2<i32>, nalgebra::Point3<i32>];
    nalgebra_u32: [nalgebra::Vector2<u32>, nalgebra::Vector3<u32>, nalgebra::Vector4<u32>, nalgebra::Point2<u32>, nalgebra::Point3<u32>];
    nalgebra_bool: [nalgebra::Vector2<bool>, nalgebra::Vector3<bool>, nalgebra::Vector4<bool>, nalgebra::Point2<bool>, nalgebra::Point3<bool>];
    nalgebra_mat2_f32: [nalgebra::Matrix2<f32>];
    nalgebra_mat3_f32: [nalgebra::Matrix3<f32>];
    nalgebra_mat4_f32: [nalgebra::Matrix4<f32>];
    nalgebra_mat2_f64: [nalgebra::Matrix2<f64>];
    nalgebra_mat3_f64: [nalgebra::Matrix3<f64>];
    nalgebra_mat4_f64: [nalgebra::Matrix4<f64>];
    glam_f32: [glam::Vec2, glam::Vec3, glam::Vec4];
    glam_f64: [glam::DVec2, glam::DVec3, glam::DVec4];
    glam_i32: [glam::IVec2, glam::IVec3, glam::IVec4];
    glam_u32: [glam::UVec2, glam::UVec3, glam::UVec4];
    glam_mat2_f32: [glam::Mat2];
    glam_mat3_f32: [glam::Mat3];
    glam_mat4_f32: [glam::Mat4];
    glam_mat2_f64: [glam::DMat2];
    glam_mat3_f64: [glam::DMat3];
    glam_mat4_f64: [glam::DMat4];
    st_one: [One];
    st_oned: [OneD];
    st_oneb: [OneB];
    st_asc: [Asc];
    st_desc: [Desc];
    st_zig: [Zig];
    st_scal: [Scal];
    st_long16: [Long16];
    st_mats: [Mats];
    st_dmats: [DMats];
    st_dmat4s: [DMat4s];
    st_lists: [Lists];
    st_in1: [In1];
    st_in2: [In2];
    st_nest1: [Nest1];
    st_nest2: [Nest2];
    st_nest3: [Nest3];
    st_nest4: [Nest4];

    st_bools: [Bools];
    st_idents: [Idents];
    st_big: [Big];
    st_small: [Small];
}
