"""Generated structs: a crate `vs` that is the native harness `vh` plus derived structs of random shapes.

The shapes are compiled against /repo like any user's structs. They complement the proofs, which fix the number of
fields (contracts on the derive output) or the list of shapes (Kani)."""
import random
from pathlib import Path

SCALARS = ['f32', 'f64', 'i32', 'u32', 'bool']
PLAIN = (['f32', 'f64', 'i32', 'u32', 'bool'] * 3
         + [f'mint::{k}<{c}>' for k in ('Vector2', 'Vector3', 'Vector4', 'Point2', 'Point3') for c in SCALARS]
         + [f'mint::ColumnMatrix{n}<{c}>' for n in (2, 3, 4) for c in ('f32', 'f64')]
         + ['glam::Vec2', 'glam::Vec3', 'glam::Vec4', 'glam::DVec2', 'glam::DVec3', 'glam::DVec4', 'glam::IVec3', 'glam::UVec2',
            'glam::Mat2', 'glam::Mat3', 'glam::Mat4', 'glam::DMat2', 'glam::DMat3', 'glam::DMat4']
         + ['cgmath::Vector2<f64>', 'cgmath::Vector3<f32>', 'cgmath::Point3<i32>', 'cgmath::Matrix2<f32>', 'cgmath::Matrix3<f64>',
            'nalgebra::Vector3<u32>', 'nalgebra::Point2<f64>', 'nalgebra::Matrix3<f32>', 'nalgebra::Matrix4<f64>', 'nalgebra::Matrix2<f32>'])
RAW = ['Raw<1, 1>', 'Raw<2, 2>', 'Raw<3, 1>', 'Raw<12, 4>', 'Raw<20, 32>', 'Raw<4, 64>', 'Raw<40, 8>', 'Raw<7, 128>']
GLSL = {}
for lib, vecs in (('mint', ('Vector', 'Point')), ('cgmath', ('Vector', 'Point')), ('nalgebra', ('Vector', 'Point'))):
    for k in vecs:
        for n in (2, 3, 4) if k == 'Vector' else (2, 3):
            for c, p in (('f32', ''), ('f64', 'd'), ('i32', 'i'), ('u32', 'u'), ('bool', 'b')):
                GLSL[f'{lib}::{k}{n}<{c}>'] = f'{p}vec{n}'
for lib, k in (('mint', 'ColumnMatrix'), ('cgmath', 'Matrix'), ('nalgebra', 'Matrix')):
    for n in (2, 3, 4):
        for c, p in (('f32', ''), ('f64', 'd')):
            GLSL[f'{lib}::{k}{n}<{c}>'] = f'{p}mat{n}'
for p, q in (('', ''), ('D', 'd'), ('I', 'i'), ('U', 'u')):
    for n in (2, 3, 4):
        GLSL[f'glam::{p}Vec{n}'] = f'{q}vec{n}'
        if p in ('', 'D'):
            GLSL[f'glam::{p}Mat{n}'] = f'{q}mat{n}'
        GLSL[f'crevice::std140::{p}Vec{n}'] = f'{q}vec{n}'
        GLSL[f'crevice::std430::{p}Vec{n}'] = f'{q}vec{n}'
SCAL_GLSL = {'f32': 'float', 'f64': 'double', 'i32': 'int', 'u32': 'uint'}

ODD = ['x_', '_x', '__a', 'a__b', 'A', 'Color', 'camelCase', 'x1', 'x_1', 'l33t', 'self_', 'input', 'output', 'value', 'zeroed', 'pad',
       'pad0', '_pad', 'offset', '_pad0', '_pad1', '_pad2', '__pad0', 'r#_pad3', 'ty', 'name', 'fields', 'f', 'r', 'rr', 'r_', 'rx', 'size', 'len', 'T', 'as_bytes', 'as_std140', 'vec3', 'mat4', 'tab2',
       'a_very_long_field_name_that_goes_on_and_on_and_on_until_it_is_longer_than_any_buffer_one_would_reserve_for_it',
       'r#type', 'r#struct', 'r#fn', 'r#in', 'r#loop', 'r#match', 'r#ref', 'r#mod', 'r#move', 'r#impl', 'r#use', 'r#where', 'r#as', 'r#dyn', 'r#true', 'r#box', 'r#final']
STRUCT_NAMES = ['S_', '_S', 'snake_case', 'UPPER', 'lower', 'X1', 'r#mod', 'r#union', 'r#try', 'Std140', 'Struct', 'Vec3', 'A__B', 'r#yield', 'Rust', 'R']


# Other ways to spell a type; a derive sees tokens only.
ALIASES = '''type Colour = mint::Vector3<f32>;
type Vector4 = mint::Vector2<f32>;
type Double = f32;
type Mat4 = mint::ColumnMatrix2<f32>;
macro_rules! scalar { () => { f64 } }
use mint::Vector3 as Vec2;
'''
SPELT = ['Colour', 'Vector4', 'Double', 'Mat4', 'scalar!()', '(f32)', '((mint::Vector3<f64>))', 'core::primitive::f64', '::mint::Point2::<f32>', 'Vec2<u32>', 'Vec2<f64>',
         '<() as vh::types::Is<mint::Vector4<i32>>>::It']
SPELT_GLSL = dict(zip(SPELT, ['vec3', 'vec2', 'float', 'mat2', 'double', 'float', 'dvec3', 'double', 'vec2', 'uvec3', 'dvec3', 'ivec4']))


# Shapes in every run: small alignments only, one type throughout, more fields than any table would have.
FIXED = ([['Raw<1, 1>'], ['Raw<3, 1>', 'Raw<2, 2>', 'Raw<1, 1>'], ['Raw<7, 1>'], ['Raw<2, 2>', 'Raw<1, 1>']]
         + [[t] * 3 + ['f32', t] for t in ('Colour', 'mint::Vector3<f64>', 'glam::Vec3', 'Vec2<u32>', 'Raw<20, 32>', 'mint::Point3<bool>')]
         + [['f32'] * 68 + ['mint::Vector4<f64>'] + ['Colour'], ['f32'] * 119 + ['mint::Vector3<f64>'], (['f32', 'f64', 'Colour', 'Raw<2, 2>'] * 33)[:126]])


def attrs(rng):
    return rng.choice(['', '', '#[allow(dead_code)]\n', '#[doc = "A struct; with } and \\"quotes\\"."]\n'])


def fattrs(rng):
    return rng.choice(['', '', '', '#[allow(unused)] ', '/** A field. */ '])


def vis(a):
    # From the name, so that no draw changes the shapes.
    return ['pub ', 'pub ', '', 'pub(crate) ', 'pub(super) ', 'pub '][sum(map(ord, a)) % 6]


def names(rng, n):
    out = []
    while len(out) < n:
        x = rng.choice(ODD) if rng.random() < 0.5 else rng.choice('abcdefghijklmnop') + str(rng.randrange(200))
        if x not in out:
            out.append(x)
    return out


def source(seed, std=72, glsl=40):
    rng = random.Random(seed)
    out, made, stds = [], [], []

    def ty(light):
        r = rng.random()
        if made and r < 0.12:
            return rng.choice(made)
        if r < 0.19:
            return rng.choice(RAW)
        if r < 0.25:
            return rng.choice(SPELT)
        return rng.choice(SCALARS if light and r < 0.7 else PLAIN)

    for k in range(std):
        n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 17, 20])
        if k < 6:
            # One field decides the alignment, at every position of a long struct.
            n = [9, 12, 17, 21, 33, 40][k]
            big = rng.choice(['mint::Vector3<f64>', 'mint::ColumnMatrix4<f32>', 'Raw<4, 64>', 'glam::DMat3'])
            at = n - 1 if k % 2 == 0 else rng.randrange(n)
            tys = [big if i == at else rng.choice(['f32', 'u32', 'i32', 'bool']) for i in range(n)]
        else:
            light = rng.random() < 0.5
            tys = [ty(light) for _ in range(n)]
            if k % 7 == 0:
                tys = sorted(tys)
        nm = f'G{k}' if k >= len(STRUCT_NAMES) else STRUCT_NAMES[k]
        if nm in ('Vec3', 'Std140'):
            nm += '_'
        if 6 <= k < 6 + len(FIXED):
            tys = FIXED[k - 6]
        elif rng.random() < 0.3:
            # Runs of one type.
            tys = [t for t in tys for _ in range(rng.choice([1, 2, 3]))][:20]
        n = len(tys)
        fs = list(zip(names(rng, n), tys))
        # Written out rather than through a macro, which would hide the types from the derive in invisible groups.
        out.append(f'{attrs(rng)}#[derive(crevice::std140::AsStd140, crevice::std430::AsStd430)]\npub struct {nm} {{ '
                   + ', '.join(f'{fattrs(rng)}{vis(a)}{a}: {t}' for a, t in fs) + ' }\n'
                   + f'vh::derived!({nm} {{ ' + ', '.join(f'{a}: {t}' for a, t in fs) + ' });')
        stds.append(nm)
        # Nesting deeper and deeper would leave the harness' tables.
        if len(tys) <= 6 and not any(t in made for t in tys) or rng.random() < 0.1 and sum(t in made for t in tys) == 1 and len(tys) < 4:
            made.append(nm)
    glines, gnames = [], []
    for k in range(glsl):
        n = rng.choice([0, 1, 1, 2, 3, 4, 5, 8, 13, 20, 37])
        nm = ('r#g_' if False else '') + (STRUCT_NAMES[k] if k < len(STRUCT_NAMES) else f'H{k}')
        fs = []
        for a in names(rng, n):
            r = rng.random()
            if gnames and r < 0.2:
                t = rng.choice(gnames)
                g = t.removeprefix('r#')
            elif r < 0.3:
                t = rng.choice(SPELT)
                g = SPELT_GLSL[t]
            elif r < 0.5:
                t = rng.choice(list(SCAL_GLSL))
                g = SCAL_GLSL[t]
            else:
                t = rng.choice(list(GLSL))
                g = GLSL[t]
            fs.append((a, t, g))
        glines.append(f'{attrs(rng)}#[derive(crevice::glsl::GlslStruct)]\npub struct {nm} {{ ' + ', '.join(f'{fattrs(rng)}{vis(a)}{a}: {t}' for a, t, g in fs) + ' }\n'
                      + f'vh::described!({nm} "{nm.removeprefix("r#")}" {{ ' + ', '.join(f'{a} "{a.removeprefix("r#")}": {t} = "{g}"' for a, t, g in fs) + ' });')
        gnames.append(nm)
    # The derive for GLSL takes generic structs.
    glines.append('#[derive(crevice::glsl::GlslStruct)]\npub struct Generic<T: crevice::glsl::Glsl = f32, const N: usize = 3> where T: Copy { pub a: T, pub n: f64, pub b: T }\n'
                  'pub type GenericF = Generic;\nvh::described!(GenericF "Generic" { a "a": f32 = "float", n "n": f64 = "double", b "b": f32 = "float" });\n'
                  'pub type GenericV = Generic<mint::Vector3<bool>, 9>;\nvh::described!(GenericV "Generic" { a "a": mint::Vector3<bool> = "bvec3", n "n": f64 = "double", b "b": mint::Vector3<bool> = "bvec3" });')
    gnames += ['GenericF', 'GenericV']
    reg = []
    for s in stds:
        for p, f in (('C01', 'derived140'), ('C02', 'derived430'), ('C04', 'padding'), ('C04', 'views'), ('C05', 'round_trip'), ('C06', 'placement'),
                     ('C08', 'writes140'), ('C08', 'writes430'), ('C09', 'writes140'), ('C09', 'writes430'),
                     ('C10', 'writes140'), ('C10', 'writes430'), ('C12', 'dynamic')):
            reg.append(f'        ("{p}/shapes::{s}::{f}", shape::{f}::<layouts::{s}> as fn()),')
    for g in gnames:
        reg.append(f'        ("C13/shapes::{g}::described", shape::described::<glsl::{g}> as fn()),')
    return (f'// Generated by vlib/shapes.py from seed {seed}.\n#![allow(non_camel_case_types, dead_code, unused_imports)]\nuse vh::shape;\n'
            'mod layouts {\nuse crevice::std140::AsStd140;\nuse crevice::std430::AsStd430;\nuse vh::structs::*;\n' + ALIASES + '\n'.join(out) + '\n}\n'
            'mod glsl {\n' + ALIASES + '\n'.join(glines) + '\n}\n'
            'fn main() {\n    vh::cli::main(vec![\n' + '\n'.join(reg) + '\n    ]);\n}\n')


def write(dirname, seed, root):
    """Writes the crate; returns its directory."""
    d = Path(dirname)
    (d / 'src').mkdir(parents=True, exist_ok=True)
    toml = (root / 'harness/Cargo.toml').read_text()
    deps = toml.split('[dependencies]')[1].split('[lints')[0]
    prof = toml[toml.index('[profile.dev]'):].replace('opt-level = 2', 'opt-level = 1')
    (d / 'Cargo.toml').write_text('[package]\nname = "vs"\nversion = "0.1.0"\nedition = "2021"\npublish = false\n\n[workspace]\n\n[dependencies]'
                                  + deps.rstrip() + f'\nvh = {{ path = "{root}/harness" }}\n\n' + prof
                                  + '\n[profile.dev.package."*"]\nopt-level = 2\n'
                                  + '\n[profile.release]\nopt-level = 1\n\n[profile.release.package."*"]\nopt-level = 2\n')
    lock = (root / 'harness/Cargo.lock').read_text()
    (d / 'Cargo.lock').write_text(lock)
    (d / 'src/main.rs').write_text(source(seed))
    return d
