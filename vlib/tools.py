"""Builds of the harness crate: native (replay and search) and Kani."""
import os, re, resource, signal, subprocess, time
from pathlib import Path

from . import shapes

ROOT = Path(__file__).resolve().parent.parent
BUILD = ROOT / '.build'
HARNESS = ROOT / 'harness'
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')


class Broken(Exception):
    """The check could not do its work (not a verdict)."""


def limit(gb):
    return lambda: resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))


def sh(cmd, cwd, timeout, env=None, gb=None):
    """Runs a command in a session of its own, so that a timeout ends its children as well."""
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace',
                         start_new_session=True, preexec_fn=limit(gb) if gb else None)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err, time.time() - t0
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return None, out, err + '\ntimeout', time.time() - t0


class DoesNotCompile(Broken):
    """A program that uses the crate as documented is refused by rustc."""


def build_release(seed=1):
    """The same without debug assertions and overflow checks, as users ship it; None when it does not build."""
    env = dict(ENV, CARGO_TARGET_DIR=str(BUILD / 'native-release'))
    d = shapes.write(BUILD / 'shapes-release', seed, ROOT)
    rc, out, err, s = sh(['cargo', 'build', '--release', '--offline', '--quiet', '--message-format=short'], d, 500, env)
    return BUILD / 'native-release/release/vs' if rc == 0 else None


def build_native(seed=1):
    """The native harness with the generated shapes of this seed; falls back to the harness alone."""
    env = dict(ENV, CARGO_TARGET_DIR=str(BUILD / 'native'))
    d = shapes.write(BUILD / 'shapes', seed, ROOT)
    rc, out, err, s = sh(['cargo', 'build', '--offline', '--quiet', '--message-format=short'], d, 500, env)
    if rc == 0:
        return BUILD / 'native/debug/vs', None
    if not re.search(r'could not compile `v[hs]`', err):
        raise Broken('the harness does not build against /repo:\n' + err[-3000:])
    errors = '\n'.join(l for l in err.splitlines() if 'error' in l)[:3000]
    if 'could not compile `vh`' in err:
        raise DoesNotCompile(errors)
    rc, out, err, s = sh(['cargo', 'build', '--locked', '--quiet'], HARNESS, 300, env)
    if rc != 0:
        raise DoesNotCompile(err[-3000:])
    return BUILD / 'native/debug/vh', errors


def build_extract():
    env = dict(ENV, CARGO_TARGET_DIR=str(BUILD / 'extract'))
    rc, out, err, s = sh(['cargo', 'build', '--locked', '--quiet'], ROOT / 'tools/extract', 600, env)
    if rc != 0:
        raise Broken('the extractor does not build:\n' + err[-3000:])
    return BUILD / 'extract/debug/extract'


def vh(binary, *args, timeout=600):
    """Returns (status word, rest of line, full output)."""
    rc, out, err, s = sh([str(binary), *map(str, args)], ROOT, timeout)
    line = next((l for l in reversed(out.splitlines()) if l.split(' ')[0] in ('BROKEN', 'HELD', 'DISCARDED', 'UNKNOWN')), '')
    if rc not in (0, 1, 3) and not line:
        # The process died (abort, stack overflow): that is an outcome of the code under test.
        return 'DIED', f'exit {rc}: {err[-300:]}', out
    word, _, rest = line.partition(' ')
    return word, rest, out


KANI = ['cargo', 'kani', '--lib', '-Z', 'unstable-options', '--no-assertion-reach-checks', '--harness-timeout', '200s']


def kani(harnesses, timeout, extra=(), jobs=8):
    """Runs Kani on harnesses selected by substring; returns a list of results."""
    cmd = KANI + ['--target-dir', str(BUILD / 'kani'), '--output-format=terse', '-j', str(jobs), *extra]
    for h in harnesses:
        cmd += ['--harness', h]
    rc, out, err, s = sh(cmd, HARNESS, timeout, gb=9)
    text = out + '\n' + err
    cur, res = {}, {}
    thread = None
    for l in text.splitlines():
        m = re.match(r'(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.', l)
        if m:
            thread = m.group(1)
            cur[thread] = m.group(2)
            res[m.group(2)] = {'name': m.group(2), 'status': 'undecided', 'checks': 0, 'failed': [], 'cover': None, 'seconds': None}
            continue
        m = re.match(r'Thread (\d+):\s*$', l)
        if m:
            thread = m.group(1)
            continue
        r = res.get(cur.get(thread))
        if r is None:
            continue
        m = re.match(r' \*\* (\d+) of (\d+) failed', l)
        if m:
            r['checks'] = int(m.group(2))
        m = re.match(r' \*\* (\d+) of (\d+) cover properties satisfied', l)
        if m:
            r['cover'] = m.group(1) == m.group(2)
        m = re.match(r'\s*Failed Checks: (.*)', l)
        if m:
            r['failed'].append(m.group(1).strip())
        m = re.match(r'VERIFICATION:- (\w+)', l)
        if m:
            r['status'] = {'SUCCESSFUL': 'proved', 'FAILED': 'failed'}.get(m.group(1), 'undecided')
        m = re.match(r'Verification Time: ([\d.]+)s', l)
        if m:
            r['seconds'] = float(m.group(1))
    if not res:
        if rc is None:
            raise Broken('Kani timed out before the first harness')
        if 'error' in text and 'Checking harness' not in text:
            raise Broken('Kani cannot compile the harness:\n' + text[-3000:])
    return {'cmd': ' '.join(cmd), 'results': list(res.values()), 'seconds': s, 'complete': rc is not None, 'tail': text[-1500:]}


# What CBMC reports for reasons of its own, not because the code is wrong.
NOT_A_VERDICT = ('unwinding assertion', 'is not currently supported', 'memset destination', 'unsupported',
                 'out of memory', 'unreachable code')


def kani_verdicts(run):
    """Splits failed checks of each harness into genuine ones and limits of the tool."""
    for r in run['results']:
        r['genuine'] = [f for f in r['failed'] if not any(n in f for n in NOT_A_VERDICT)]
        if r['status'] == 'failed' and not r['genuine']:
            r['status'] = 'undecided'
        if r['status'] == 'proved' and r['cover'] is False:
            r['status'] = 'vacuous'
    return run


def playback(harness, timeout=300):
    """The concrete draws of a failing harness, as `vh replay` takes them (a list of candidates)."""
    cmd = KANI + ['--target-dir', str(BUILD / 'kani'), '-Z', 'concrete-playback', '--concrete-playback=print', '--exact', '--harness', harness]
    rc, out, err, s = sh(cmd, HARNESS, timeout, gb=9)
    found = []
    for block in re.findall(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', out, re.S):
        vals = [[int(x) for x in v.split(',') if x.strip()] for v in re.findall(r'vec!\[([\d, ]*)\]', block)]
        found.append(','.join(''.join(f'{b:02x}' for b in v) for v in vals) or '-')
    if not found and 'VERIFICATION:- FAILED' in out:
        found.append('-')
    return found
