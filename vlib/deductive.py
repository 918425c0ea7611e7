"""Extract the real functions, put their contracts on them, run Verus, read the result."""
import json, os, re, subprocess, time
from pathlib import Path

from . import tools

ROOT = Path(__file__).resolve().parent.parent
REPO = Path('/repo')
CON = ROOT / 'contracts'
SOURCES = {
    'internal': 'src/internal.rs',
    'std140/traits': 'src/std140/traits.rs',
    'std140/writer': 'src/std140/writer.rs',
    'std140/sizer': 'src/std140/sizer.rs',
    'std140/dynamic_uniform': 'src/std140/dynamic_uniform.rs',
    'std430/traits': 'src/std430/traits.rs',
    'std430/writer': 'src/std430/writer.rs',
    'std430/sizer': 'src/std430/sizer.rs',
    'std140/primitives': 'src/std140/primitives.rs',
    'std430/primitives': 'src/std430/primitives.rs',
    'glsl': 'src/glsl.rs',
    'bool': 'src/bool.rs',
}


def contract_text(name):
    """The contract of one source file; std430's is std140's with the number changed."""
    f = CON / (name.replace('/', '_') + '.contract')
    if f.exists():
        return f.read_text()
    t = (CON / (name.replace('std430', 'std140').replace('/', '_') + '.contract')).read_text()
    t = t.replace('140', '430')
    # Writer::write_slice exists for std140 only.
    return re.sub(r'(?ms)^%fn Writer<W>::write_slice\n.*?(?=^%fn )', '', t)


def without_proof(text, fn):
    """The contract with only the signature part (what callers see) of one function."""
    out, cur, keep = [], None, True
    for l in text.splitlines():
        if l.startswith('%'):
            word = l.split(' ')[0]
            if word == '%fn':
                cur = l[4:].strip()
            keep = cur != fn or word in ('%fn', '%ret', '%spec', '%item', '%drop', '%replace')
            if not keep and word in ('%fn',):
                keep = True
            if word in ('%item', '%drop', '%replace'):
                keep = True
        if keep:
            out.append(l)
        if l.startswith('%fn') and cur == fn:
            out += ['%attr', '    #[verifier::external_body]']
    return '\n'.join(out) + '\n'


def extract(tool, work, name, assume=()):
    src = REPO / SOURCES[name]
    base = work / name.replace('/', '_')
    con, out, rep = base.with_suffix('.contract'), base.with_suffix('.rs'), base.with_suffix('.report')
    text = contract_text(name)
    for s, fn in assume:
        if s == name:
            text = without_proof(text, fn)
    con.write_text(text)
    p = subprocess.run([str(tool), str(src), str(con), str(out), str(rep)], capture_output=True, text=True)
    if p.returncode:
        return None, [('unreadable', name, p.stderr.strip()[-400:])]
    return out.read_text(), [tuple(l.split('\t')) for l in rep.read_text().splitlines()]


# Sources that nothing else under contract depends on: when one of them leaves the verifier's language, the others are still verified.
LEAVES = {'derive', 'forms', 'bool', 'std140/primitives', 'std430/primitives', 'glsl', 'std140/dynamic_uniform'}


def assemble(tool, work, main='main.rs', assume=(), parts=(), dropped=()):
    """Returns (path of the assembled file, report rows per source)."""
    reports, problems = {}, []

    def expand(text, n430=False):
        out, skip = [], False
        for line in text.splitlines():
            m = re.match(r'//@(\w+)\s*(.*)', line)
            if skip and not (m and m.group(1) == 'end'):
                continue
            if not m:
                out.append(line)
                continue
            word, arg = m.group(1), m.group(2).strip()
            if word == 'begin':
                names = arg.split()[1:]
                skip = bool(set(names) & set(dropped)) or names[0] == 'forms' and 'forms' not in parts
                out.append(f'// ##! {arg.split()[1]}')
            elif word == 'end':
                skip = False
                out.append('// ##! -')
            elif word == 'file':
                out.append((CON / arg).read_text())
            elif word == 'include':
                out.append(expand((CON / arg).read_text()))
            elif word == 'layout':
                t = (CON / 'layout.rs').read_text()
                if arg == '430':
                    t = t.replace('140', '430')
                out.append(expand(t))
            elif word == 'derives':
                what = [x for x in parts if x != 'forms']
                if what:
                    from . import derives
                    text1, rows = derives.lift(tool.parent / 'lift', work, what, assume)
                    reports['derive'] = rows
                    out += ['// ### derive', text1, '// ### -']
            elif word == 'forms':
                from . import derives
                text1, rows = derives.forms(tool.parent / 'forms', work, assume)
                reports['forms'] = rows
                out += ['// ### forms', text1, '// ### -']
            elif word == 'extract':
                text1, rows = extract(tool, work, arg, assume)
                reports[arg] = rows
                if text1 is None:
                    problems.append(rows[0])
                    text1 = ''
                out.append(f'// ### {arg}')
                out.append(text1)
                out.append('// ### -')
            else:
                raise SystemExit(f'bad template directive {line}')
        return '\n'.join(out)

    text = expand((CON / main).read_text())
    path = work / 'contracts_full.rs'
    path.write_text(text + '\n')
    return path, reports, problems


def run_verus(path, extra=(), timeout=600):
    cmd = ['verus', str(path), '--crate-type=lib', '--error-format=json', '--output-json', '--time-expanded',
           '--multiple-errors', '20', '--num-threads', '8', '--rlimit', str(RLIMIT), '--triggers-mode', 'silent', *extra]
    rc, stdout, stderr, seconds = tools.sh(cmd, path.parent, timeout)
    if rc is None:
        return {'ok': False, 'status': 'timeout', 'cmd': cmd, 'seconds': timeout, 'messages': [], 'raw': '', 'summary': {}}
    msgs = []
    for l in stderr.splitlines():
        try:
            msgs.append(json.loads(l))
        except ValueError:
            pass
    try:
        summary = json.loads(stdout)
    except ValueError:
        summary = {}
    return {'cmd': cmd, 'rc': rc, 'seconds': seconds, 'messages': msgs, 'summary': summary,
            'raw': stderr[-4000:]}


# ---- reading the result -----------------------------------------------------------------------
FAILURES = ('postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied',
            'assertion failed', 'possible arithmetic underflow/overflow', 'possible division by zero',
            'decreases not satisfied', 'precondition of', 'unreachable', 'index out of bounds')
# Verus' resource limit, in seconds or so.
RLIMIT = 30
UNDECIDED = ('rlimit', 'resource limit', 'could not prove termination', 'timed out')


def sites(text):
    """For every line: (source, function key) of the extracted code it belongs to, or None."""
    out, src, fn = [], None, None
    for l in text.splitlines():
        m = re.match(r'\s*// ### (.*)', l)
        if m:
            src, fn = (None if m.group(1) == '-' else m.group(1)), None
        m = re.match(r'\s*// >>> (.*)', l)
        if m:
            fn = m.group(1).strip()
        out.append((src, fn) if src else None)
    return out


def leaf_at(lines, n):
    """The leaf that line n (1-based) belongs to: (source, None), or None."""
    for l in reversed(lines[:n]):
        if l.startswith('// ##! '):
            return None if l.endswith('-') else (l[7:].strip(), None)
    return None


def tags_of(lines, a, b):
    """The tag comment of the clause that spans lines a..b (1-based)."""
    for i in range(a - 1, min(b + 1, len(lines))):
        m = re.search(r'// \[([^\]]*)\]\s*$', lines[i])
        if m:
            return m.group(1).split()
        if i >= b - 1:
            break
    return []


def own(source, fn):
    from . import plan
    for s, pat, props in plan.OWN:
        if s == source and re.search(pat, fn or ''):
            return props
    return []


def clauses(text):
    """Every tagged clause in the assembled file: [(source, fn, line, tags)]."""
    lines, where = text.splitlines(), sites(text)
    out = []
    for i, l in enumerate(lines):
        m = re.search(r'// \[([^\]]*)\]\s*$', l)
        if m:
            w = where[i]
            tags = m.group(1).split()
            if w:
                if 'own' in tags:
                    tags = [t for t in tags if t != 'own'] + own(*w)
                out.append((w[0], w[1], i + 1, tags))
            else:
                m = re.search(r'proof fn (\w+)', l)
                out.append(('lemma', m.group(1) if m else None, i + 1, tags))
    return out


def written(span, name):
    """Where in the file a span is, or the use of the macro that it comes from."""
    s = span
    while s and Path(s['file_name']).name != name:
        s = (s.get('expansion') or {}).get('span')
    return s and dict(s, is_primary=span['is_primary'], label=span['label'])


def analyse(path, run):
    """Splits Verus' messages into failed obligations and everything else."""
    text = path.read_text()
    lines, where = text.splitlines(), sites(text)
    failed, undecided, errors = [], [], []
    for m in run['messages']:
        if m.get('level') != 'error' or m['message'].startswith('aborting due to'):
            continue
        spans = [s for s in map(lambda s: written(s, path.name), m['spans']) if s]
        code = [s for s in spans if where[s['line_start'] - 1]]
        if any(u in m['message'] for u in UNDECIDED):
            undecided.append((where[code[0]['line_start'] - 1] if code else None, m['message']))
            continue
        if not any(f in m['message'] for f in FAILURES):
            at = [leaf_at(lines, s['line_start']) for s in spans if s['is_primary']]
            errors.append((where[code[0]['line_start'] - 1] if code else (at or [None])[0], m['message'], (m.get('rendered') or '')[:1500]))
            continue
        clause = next((s for s in spans if (s['label'] or '').startswith('failed')), None)
        if 'postcondition' in m['message'] or 'precondition' in m['message']:
            rest = [s for s in code if s is not clause]
            site = where[(rest or code or [None])[0]['line_start'] - 1] if (rest or code) else None
        else:
            clause = clause or next((s for s in spans if s['is_primary']), None)
            site = where[clause['line_start'] - 1] if clause else None
        tags = tags_of(lines, clause['line_start'], clause['line_end']) if clause else []
        if 'precondition' in m['message']:
            tags = []
        if site is None:
            # A top lemma says what the contracts come to; the others are only there for the proofs.
            top = [s for s in spans if (t := tags_of(lines, s['line_start'], s['line_start'])) and 'proof fn' in lines[s['line_start'] - 1]]
            if top:
                undecided.append((('lemma', re.search(r'proof fn (\w+)', lines[top[0]['line_start'] - 1]).group(1)), m['message']))
                continue
            errors.append((None, 'a lemma of the specification fails: ' + m['message'], (m.get('rendered') or '')[:1500]))
            continue
        tags = [t for t in tags if t != 'own'] + (own(*site) if 'own' in tags or not tags else [])
        failed.append({'source': site[0], 'fn': site[1], 'what': m['message'], 'properties': sorted(set(tags)),
                       'clause': ' '.join(lines[i].strip() for i in range(clause['line_start'] - 1, clause['line_end'])) if clause else '',
                       'output': (m.get('rendered') or '')[:2500]})
    return failed, undecided, errors


def functions(run):
    """Verus' own account: name -> (success, milliseconds)."""
    out = {}
    for mod in run['summary'].get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        for f in mod.get('function-breakdown', []):
            n = f['function'].split('::', 1)[-1]
            ok, ms = out.get(n, (True, 0))
            out[n] = (ok and f.get('success', False), ms + f.get('time-micros', 0) / 1000)
    return out


def structure(reports):
    """Where the code no longer has the shape its contracts are anchored to: {source: [what]}, and the new
    functions, which have no contract, so that a proof about their callers says nothing."""
    changed, bare = {}, {}
    for src, rows in reports.items():
        for r in rows:
            if r[0] in ('missing', 'loops', 'shape', 'unreadable'):
                changed.setdefault(src, []).append(r)
            elif r[0] == 'fn' and r[2] == 'bare':
                bare.setdefault(src, []).append(r[1])
            elif r[0] == 'fn' and len(r) > 5 and r[5] != '0':
                changed.setdefault(src, []).append(('closures', r[1]))
    return changed, bare


def body_text(path, site):
    """The assembled text of one function."""
    text = path.read_text()
    return '\n'.join(l for l, w in zip(text.splitlines(), sites(text)) if w == site)


# What Verus accepts although nothing specifies what it does: a proof that meets one of these says nothing about the code.
UNSPECIFIED = {'glsl': r'\b(format|write|writeln|concat)!|\bString::from\b|\+=|\.into\(\)'}


def decide(tool, work, parts=(), timeout=300):
    """Runs everything. Returns a dict: violations, out_of_reach, obligations, functions, ..."""
    assume, dropped, log = [], set(), []
    work.mkdir(parents=True, exist_ok=True)
    # An expansion from an earlier run says nothing about the current tree.
    (work / 'expand/expanded.rs').unlink(missing_ok=True)
    (work / 'expand/crate.rs').unlink(missing_ok=True)
    for attempt in range(8):
        path, reports, problems = assemble(tool, work, assume=assume, parts=parts, dropped=dropped)
        lost = {x[1] for x in problems} & LEAVES
        if lost and lost == {x[1] for x in problems}:
            log += [str(x) for x in problems]
            dropped |= lost
            continue
        run = run_verus(path, timeout=timeout)
        if problems or run.get('status') == 'timeout' or not run['summary']:
            return {'usable': False, 'why': str(problems or run.get('status') or run['raw'][-600:]), 'run': run, 'path': path, 'reports': reports}
        failed, undecided, errors = analyse(path, run)
        sitesx = [e[0] for e in errors if e[0] and e[0][1] and e[0] not in assume]
        if not errors:
            break
        log += [f'{e[0]}: {e[1]}' for e in errors]
        leaves = {e[0][0] for e in errors if e[0] and e[0] not in sitesx and e[0][0] in LEAVES}
        dropped |= leaves
        if leaves and not sitesx:
            continue
        if not sitesx:
            return {'usable': False, 'why': '; '.join(log)[-800:], 'run': run, 'path': path, 'reports': reports}
        assume += list(dict.fromkeys(sitesx))
    else:
        return {'usable': False, 'why': '; '.join(log)[-800:], 'run': run, 'path': path, 'reports': reports}
    changed, bare = structure(reports)
    names = {re.split(r'::| ', n)[-1]: (s, n) for s, l in bare.items() for n in l}
    hard, soft = [], [{'source': s, 'fn': f, 'why': 'not in the verifier\'s language'} for s, f in assume]
    for f in failed:
        text = body_text(path, (f['source'], f['fn']))
        helper = [n for n in names if re.search(r'\b%s\b' % re.escape(n), text)]
        if m := re.search(UNSPECIFIED.get(f['source'], r'(?!)'), text):
            helper = helper + [m.group(0)]
        shape = [c for c in changed.get(f['source'], []) if c[1] == f['fn'] or c[0] == 'missing']
        # The text does not depend on how much memory is set aside for it.
        if f['source'] == 'glsl' and 'arithmetic' in f['what']:
            shape = shape + ['arithmetic']
        if helper or shape:
            soft.append({'source': f['source'], 'fn': f['fn'], 'why': f'shape changed: {helper or shape}'})
        else:
            hard.append(f)
    for s in sorted(dropped):
        for fn in ['items'] + ([] if s in ('derive', 'forms') else re.findall(r'(?m)^%fn (.*)$', contract_text(s))):
            soft.append({'source': s, 'fn': fn.strip(), 'why': 'the file is not in the verifier\'s language'})
    for site, msg in undecided:
        soft.append({'source': site[0] if site else None, 'fn': site[1] if site else None, 'why': msg})
    for s, rows in changed.items():
        for r in rows:
            if r[0] == 'missing':
                soft.append({'source': s, 'fn': r[1], 'why': 'the function is gone'})
    res = run['summary'].get('verification-results', {})
    totals = {'verified': res.get('verified', 0), 'errors': res.get('errors', 0), 'solver_ms': run['summary'].get('times-ms', {}).get('smt', {}).get('total') or 0}
    return {'usable': True, 'totals': totals, 'violations': hard, 'out_of_reach': soft, 'path': path, 'reports': reports, 'run': run,
            'functions': functions(run), 'clauses': clauses(path.read_text()), 'changed': changed, 'bare': bare, 'log': log}


def merge(v, f):
    """The run over everything else, and what the run over the built-in forms says about those."""
    if not v['usable']:
        return v
    if not f['usable']:
        v['out_of_reach'].append({'source': 'forms', 'fn': 'items', 'why': f['why']})
        return v
    for k in ('violations', 'out_of_reach'):
        v[k] += [x for x in f[k] if x['source'] == 'forms']
    v['clauses'] += [c for c in f['clauses'] if c[0] == 'forms']
    # What the other run has verified already is not counted twice.
    same = set(v['functions'])
    more = {n: x for n, x in f['functions'].items() if n not in same}
    v['functions'].update(more)
    v['totals']['verified'] += sum(1 for ok, ms in more.values() if ok)
    v['totals']['errors'] += sum(1 for ok, ms in more.values() if not ok)
    v['totals']['solver_ms'] += f['totals']['solver_ms']
    v['log'] += f['log']
    return v


def vacuous(tool, work, parts=(), timeout=600):
    """The functions under contract, and the top lemmas, whose contracts and assumptions prove false: (all, those)."""
    work.mkdir(parents=True, exist_ok=True)
    os.environ['VERIF_SMOKE'] = '1'
    try:
        path, reports, problems = assemble(tool, work, parts=parts)
    finally:
        del os.environ['VERIF_SMOKE']
    if problems:
        return None
    lines, out, lemma = path.read_text().splitlines(), [], False
    for l in lines:
        lemma = lemma or bool(re.match(r'pub proof fn .*// \[C\d\d\]', l))
        if lemma and l == '{}':
            l, lemma = '{ assert(false); }', False
        out.append(l)
        # The lemma is only worth something when its hypotheses can hold.
        if lemma and l == '{':
            out[-1], lemma = '{ assert(false);', False
    path.write_text('\n'.join(out) + '\n')
    sites_ = {i + 1 for i, l in enumerate(out) if 'assert(false); }' in l or l == '{ assert(false);'}
    run = run_verus(path, timeout=timeout)
    if not run['summary']:
        return None
    hit = set()
    for m in run['messages']:
        if m.get('level') == 'error' and 'assertion failed' in m['message']:
            hit |= {s['line_start'] for s in m['spans'] if s['is_primary']}
        elif m.get('level') == 'error' and any(u in m['message'] for u in UNDECIDED):
            # Not proved, so not vacuous.
            hit |= {s['line_start'] for s in m['spans']}
    where = sites(path.read_text())
    return len(sites_), [str(where[i - 1] or f'line {i}') for i in sorted(sites_ - hit)]
