#![allow(unused_imports, unused_macros)]
#[macro_use]
pub mod nd;
pub mod spec;
pub mod types;
#[macro_use]
pub mod structs;
pub mod conv;
pub mod layout;
pub mod writer;
#[macro_use]
pub mod misc;
pub mod shape;
#[cfg(not(kani))]
pub mod cli;

/// Every harness by name: "<property>/<part>".
#[cfg(not(kani))]
pub fn all() -> Vec<(&'static str, fn())> {
    let mut v: Vec<(&'static str, fn())> = Vec::new();
    macro_rules! add {
        ($($n:literal $f:path;)*) => { $( v.push(($n, $f)); )* };
    }
    v.extend(conv::all());
    add! {
        "C04/conv::view_proofs::c04" conv::c04_views;
        "C01/layout::proofs::align_pow2" layout::align_pow2;
        "C02/layout::proofs::align_pow2" layout::align_pow2;
        "C08/layout::proofs::align_pow2" layout::align_pow2;
        "C10/layout::proofs::align_pow2" layout::align_pow2;
        "C01/layout::proofs::c01_structs" layout::c01_structs;
        "C01/layout::proofs::c01_pairs" layout::c01_pairs;
        "C02/layout::proofs::c02_structs" layout::c02_structs;
        "C02/layout::proofs::c02_pairs" layout::c02_pairs;
        "C03/layout::proofs::c03_std140" layout::c03_std140;
        "C03/layout::proofs::c03_std430" layout::c03_std430;
        "C07/misc::proofs::c07_bool" misc::c07_bool;
        "C07/misc::proofs::c07_mint" misc::c07_mint;
        "C07/misc::proofs::c07_cgmath" misc::c07_cgmath;
        "C07/misc::proofs::c07_nalgebra" misc::c07_nalgebra;
        "C07/misc::proofs::c07_struct" misc::c07_struct;
        "C08/writer::proofs::w140::c08" writer::w140::c08;
        "C08/writer::proofs::w430::c08" writer::w430::c08;
        "C08/far140" writer::w140::far;
        "C08/far430" writer::w430::far;
        "C09/writer::proofs::w140::c09" writer::w140::c09;
        "C09/writer::proofs::w430::c09" writer::w430::c09;
        "C10/writer::proofs::w140::c10_writer" writer::w140::c10_writer;
        "C10/writer::proofs::w430::c10_writer" writer::w430::c10_writer;
        "C10/writer::proofs::w140::c10_sizes" writer::w140::c10_sizes;
        "C10/writer::proofs::w430::c10_sizes" writer::w430::c10_sizes;
        "C11/writer::proofs::w140::c11" writer::w140::c11;
        "C11/writer::proofs::w430::c11" writer::w430::c11;
        "C12/misc::proofs::c12_prims" misc::c12_prims;
        "C12/misc::proofs::c12_mats" misc::c12_mats;
        "C12/misc::proofs::c12_structs" misc::c12_structs;
        "C12/misc::proofs::c12_raw" misc::c12_raw;
        "C12/misc::proofs::c12_sizer" misc::c12_sizer;
        "C12/c12_writer" misc::c12_writer;
        "C13/misc::proofs::c13_scalars" misc::c13_scalars;
        "C13/misc::proofs::c13_mint" misc::c13_mint;
        "C13/misc::proofs::c13_cgmath" misc::c13_cgmath;
        "C13/misc::proofs::c13_nalgebra" misc::c13_nalgebra;
        "C13/misc::proofs::c13_glam" misc::c13_glam;
        "C13/misc::proofs::c13_forms" misc::c13_forms;
        "C13/misc::proofs::c13_structs" misc::c13_structs;
        "C13/misc::proofs::c13_text" misc::c13_text;
        "C14/misc::proofs::c14_std140" misc::c14_std140;
        "C14/misc::proofs::c14_std430" misc::c14_std430;
    }
    v
}
