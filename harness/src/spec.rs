//! The GLSL std140 / std430 layout rules (OpenGL 4.6 core, 7.6.2.2), written from the standard and
//! independently of crevice.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Lay {
    L140,
    L430,
}
use Lay::*;

/// A GLSL type; `u8`s are the number of bytes of a component and of components.
#[derive(Clone, Copy)]
pub enum G {
    S(usize),
    V(usize, usize),
    /// Square float matrix: bytes per component, columns (= rows).
    M(usize, usize),
    St(&'static [G]),
    /// A user-defined form of the given size and alignment.
    R(usize, usize),
}

pub const fn up(x: usize, a: usize) -> usize {
    // The smallest multiple of a at or above x, without reusing crevice's formula.
    let r = x % a;
    if r == 0 {
        x
    } else {
        x + (a - r)
    }
}
const fn mx(a: usize, b: usize) -> usize {
    if a < b {
        b
    } else {
        a
    }
}

impl G {
    /// Base alignment.
    pub const fn align(&self, l: Lay) -> usize {
        match *self {
            G::S(n) => n,                    // rule 1
            G::V(n, 2) => 2 * n,             // rule 2
            G::V(n, _) => 4 * n,             // rules 2 and 3
            G::M(n, c) => {
                // rules 5 and 4: an array of c column vectors
                let a = if c == 2 { 2 * n } else { 4 * n };
                match l {
                    L140 => up(a, 16),
                    L430 => a,
                }
            }
            G::St(f) => {
                // rule 9
                let mut a = 1;
                let mut i = 0;
                while i < f.len() {
                    a = mx(a, f[i].align(l));
                    i += 1;
                }
                match l {
                    L140 => mx(a, 16),
                    L430 => a,
                }
            }
            G::R(_, a) => a,
        }
    }
    pub const fn stride(&self, l: Lay) -> usize {
        match *self {
            G::M(n, c) => {
                let a = if c == 2 { 2 * n } else { 4 * n };
                let s = up(c * n, a);
                match l {
                    L140 => up(s, 16),
                    L430 => s,
                }
            }
            _ => 0,
        }
    }
    pub const fn size(&self, l: Lay) -> usize {
        match *self {
            G::S(n) => n,
            G::V(n, c) => n * c,
            G::M(_, c) => c * self.stride(l),
            G::St(f) => {
                let mut o = 0;
                let mut i = 0;
                while i < f.len() {
                    o = up(o, f[i].align(l)) + f[i].size(l);
                    i += 1;
                }
                up(o, self.align(l))
            }
            G::R(n, _) => n,
        }
    }
    /// Offset of struct member i.
    pub const fn member(&self, i: usize, l: Lay) -> usize {
        match *self {
            G::St(f) => {
                let mut o = 0;
                let mut k = 0;
                while k < i {
                    o = up(o, f[k].align(l)) + f[k].size(l);
                    k += 1;
                }
                up(o, f[i].align(l))
            }
            _ => 0,
        }
    }
    /// Number of components (scalars, vectors, matrices).
    pub const fn comps(&self) -> usize {
        match *self {
            G::S(_) => 1,
            G::V(_, c) => c,
            G::M(_, c) => c * c,
            G::St(f) => f.len(),
            G::R(n, _) => n,
        }
    }
    /// Bytes per component.
    pub const fn unit(&self) -> usize {
        match *self {
            G::S(n) | G::V(n, _) | G::M(n, _) => n,
            G::St(_) => 0,
            G::R(..) => 1,
        }
    }
    /// Offset of component k (matrices: column-major).
    pub const fn comp(&self, k: usize, l: Lay) -> usize {
        match *self {
            G::S(_) => 0,
            G::V(n, _) => k * n,
            G::M(n, c) => (k / c) * self.stride(l) + (k % c) * n,
            G::St(_) => self.member(k, l),
            G::R(..) => k,
        }
    }
    /// Offsets of the components or members, as a constant table.
    pub const fn table(&self, l: Lay) -> [usize; FIELDS] {
        let mut t = [0; FIELDS];
        let mut i = 0;
        if let G::St(f) = *self {
            // All members in one pass.
            let mut o = 0;
            while i < FIELDS && i < f.len() {
                t[i] = up(o, f[i].align(l));
                o = t[i] + f[i].size(l);
                i += 1;
            }
            return t;
        }
        while i < FIELDS && i < self.comps() {
            t[i] = self.comp(i, l);
            i += 1;
        }
        t
    }
    /// GLSL array stride (rule 4).
    pub const fn array_stride(&self, l: Lay) -> usize {
        let s = up(self.size(l), self.align(l));
        match l {
            L140 => up(s, 16),
            L430 => s,
        }
    }
    /// Marks the bytes that belong to components, from offset `at`.
    pub const fn mark(&self, l: Lay, mut m: [bool; MAX], at: usize) -> [bool; MAX] {
        let t = self.table(l);
        let mut i = 0;
        while i < self.comps() && i < FIELDS {
            let o = at + t[i];
            if let G::St(f) = *self {
                m = f[i].mark(l, m, o);
            } else {
                let n = match *self {
                    G::R(..) => self.comps(),
                    _ => self.unit(),
                };
                let mut k = 0;
                while k < n {
                    m[o + k] = true;
                    k += 1;
                }
                if let G::R(..) = *self {
                    return m;
                }
            }
            i += 1;
        }
        m
    }
}
/// No type of the harness has a form of more bytes.
pub const MAX: usize = if cfg!(kani) { 512 } else { 8192 };
/// No struct of the harness has more fields.
pub const FIELDS: usize = if cfg!(kani) { 32 } else { 128 };
