"""What the derive macros of the current tree generate, expanded by rustc, lifted for Verus."""
import os, re, subprocess
from pathlib import Path

from . import tools

ROOT = Path(__file__).resolve().parent.parent
COUNTS = list(range(0, 13)) + [17, 24]
# In the thorough tier as well; they take minutes.
MORE = [14, 20, 32, 40]
ODD = ['r#type', 'x', '_y', 'B', 'r#fn', 'self_', 'zz_9', 'r#match', 'input', 'offset', 'alignment', 'a']


def field(n, k):
    """A field name: plain in some structs, odd in others."""
    return f'f{k}' if n % 2 or k >= len(ODD) else ODD[k]


def write(d):
    """The crate to expand; the types of its fields do not exist, which no macro can see."""
    rows, out = [], []
    for n in COUNTS:
        names = [field(n, k) for k in range(n)]
        body = ', '.join(f'pub {f}: T{k}' for k, f in enumerate(names))
        out.append('#[derive(crevice::std140::AsStd140, crevice::std430::AsStd430, crevice::glsl::GlslStruct)]\n'
                   f'pub struct S{n} {{ {body} }}\n')
        rows.append(' '.join([f'S{n}'] + [f.replace('r#', '') for f in names]))
    (d / 'src').mkdir(parents=True, exist_ok=True)
    (d / 'src/lib.rs').write_text('\n'.join(out))
    (d / 'Cargo.toml').write_text('[package]\nname = "expand"\nversion = "0.1.0"\nedition = "2021"\npublish = false\n\n[workspace]\n\n'
                                  '[dependencies]\ncrevice = { path = "/repo" }\n')
    lock = ROOT / 'harness/Cargo.lock'
    text = lock.read_text() if lock.exists() else ''
    # The harness's lock file pins what crevice needs; cargo drops what is not used here.
    (d / 'Cargo.lock').write_text(text.replace('name = "vh"', 'name = "expand"'))
    (d / 'shapes').write_text('\n'.join(rows) + '\n')


def expand(work):
    """Returns (path of the expansion, None) or (None, why not)."""
    d = work / 'expand'
    write(d)
    env = dict(tools.ENV, CARGO_TARGET_DIR=str(work / 'expand-target'), RUSTC_BOOTSTRAP='1')
    rc, out, err, s = tools.sh(['cargo', 'rustc', '--offline', '--quiet', '--lib', '--', '-Zunpretty=expanded'], d, 300, env)
    # Name resolution fails (T0 does not exist), after the expansion has been printed.
    if 'struct S1' not in out:
        return None, 'rustc does not expand the derives: ' + err[-600:]
    (d / 'expanded.rs').write_text(out)
    return d / 'expanded.rs', None


def lift(lifter, work, parts, assume=()):
    """Returns (text, report rows)."""
    d = work / 'expand'
    if not (d / 'expanded.rs').exists():
        path, why = expand(work)
        if why:
            return '', [('missing', 'derive', why)]
    (d / 'assume').write_text('\n'.join(f for s, f in assume if s == 'derive') + '\n')
    p = subprocess.run([str(lifter), str(d / 'expanded.rs'), str(d / 'shapes'), ','.join(parts), str(d / 'assume'),
                        str(d / 'lifted.rs'), str(d / 'report')], capture_output=True, text=True)
    if p.returncode:
        return '', [('missing', 'derive', 'cannot lift: ' + p.stderr[-400:])]
    return (d / 'lifted.rs').read_text(), [tuple(l.split('\t')) for l in (d / 'report').read_text().splitlines()]


def forms(lifter, work, assume=()):
    """The built-in forms and conversions of the crate itself: (text, report rows)."""
    d = work / 'expand'
    d.mkdir(parents=True, exist_ok=True)
    if not (d / 'crate.rs').exists():
        env = dict(tools.ENV, CARGO_TARGET_DIR=str(work / 'expand-target'), RUSTC_BOOTSTRAP='1')
        rc, out, err, s = tools.sh(['cargo', 'rustc', '--offline', '--quiet', '--lib', '--features', 'test-all-math-libraries', '--', '-Zunpretty=expanded'], '/repo', 300, env)
        if rc or not out:
            return '', [('missing', 'forms', 'rustc does not expand the crate: ' + err[-400:])]
        (d / 'crate.rs').write_text(out)
    (d / 'assume').write_text('\n'.join(f for s, f in assume if s == 'forms') + '\n')
    p = subprocess.run([str(lifter), str(d / 'crate.rs'), str(d / 'assume'), str(d / 'forms.rs'), str(d / 'forms-report')], capture_output=True, text=True)
    if p.returncode:
        return '', [('missing', 'forms', 'cannot lift: ' + p.stderr[-400:])]
    return (d / 'forms.rs').read_text(), [tuple(l.split('\t')) for l in (d / 'forms-report').read_text().splitlines()]
