#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough      decide one property on /repo's current tree
   check.py replay FILE                  run the failing input of a violation again"""
import json, os, re, shutil, sys, threading, time, traceback
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
from vlib import deductive, derives, plan, tools
from vlib.tools import Broken, BUILD, DoesNotCompile, ROOT

REPLAY = ROOT / 'replay'
FINDINGS = ROOT / 'known_findings.txt'


class Part(threading.Thread):
    """One of the three machines; keeps its result or its exception."""

    def __init__(self, fn, *a):
        super().__init__(daemon=True)
        self.fn, self.a, self.value, self.error = fn, a, None, None
        self.start()

    def run(self):
        try:
            self.value = self.fn(*self.a)
        except Exception as e:  # noqa: BLE001 - reported by the main thread
            self.error = e
            self.trace = traceback.format_exc()

    def get(self):
        self.join()
        if self.error:
            raise self.error
        return self.value


def dictionary():
    """Integer literals of the code under test, for the generator of native inputs."""
    found = set()
    for d in ('src', 'crevice-derive/src'):
        for f in sorted(Path('/repo', d).rglob('*.rs')):
            for m in re.findall(r'(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)', f.read_text(errors='replace')):
                try:
                    v = int(m.replace('_', ''), 0)
                except ValueError:
                    continue
                if v < 1 << 64:
                    found.add(v)
    return ','.join(map(str, sorted(found)))


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.violations, self.notes, self.known = [], [], []
        self.cover = {}
        tools.ENV['VH_DICT'] = dictionary()

    # -- reporting --------------------------------------------------------------------------------
    def violation(self, kind, what, **more):
        REPLAY.mkdir(exist_ok=True)
        n = len(self.violations)
        path = REPLAY / f'{self.prop}-{n}.json'
        data = {'property': self.prop, 'kind': kind, 'what': what, **more}
        data['seed'] = self.seed
        if kind in ('input', 'compile'):
            data['run'] = f'python3 check.py replay {path}'
        path.write_text(json.dumps(data, indent=1) + '\n')
        self.violations.append(data)
        tail = '' if kind in ('input', 'compile') else ' no-failing-input-found'
        print(f'  {what}')
        print(f'VIOLATION property={self.prop} replay={path}{tail}', flush=True)

    def compile_error(self, what, errors):
        self.violation('compile', f'rustc refuses the generated code of {what}', errors=errors, seed=self.seed)

    # -- native -----------------------------------------------------------------------------------
    def search(self, seconds, seed=None, vh=None):
        """Random search on the real code with all cores; the first failing input, or None."""
        vh = vh or self.native.get()[0]
        seed = self.seed if seed is None else seed
        jobs = [Part(lambda k: tools.vh(vh, 'search', self.prop + '/', (seed * 8 + k) if k else seed, seconds, timeout=seconds + 250), k) for k in range(self.cores)]
        runs = 0
        hit = None
        for j in jobs:
            word, rest, out = j.get()
            if word == 'BROKEN':
                hit = hit or rest.split(' ', 2)
            elif word == 'DIED':
                self.notes.append(f'native search died: {rest}')
                self.died = rest
            else:
                m = re.search(r'runs=(\d+)', rest)
                runs += int(m.group(1)) if m else 0
        self.cover['native_runs'] = self.cover.get('native_runs', 0) + runs
        return hit

    def confirm(self, name, inp):
        """Does this input fail on the real code?"""
        word, rest, out = tools.vh(self.native.get()[0], 'replay', name, inp)
        return word in ('BROKEN', 'DIED'), rest

    # -- Kani -------------------------------------------------------------------------------------
    def kani_part(self):
        hs = plan.KANI[self.prop]
        if not hs:
            return {'results': [], 'seconds': 0, 'cmd': '', 'complete': True}
        return tools.kani_verdicts(tools.kani(hs, 500))

    def names(self, kani_name):
        """The native harnesses with the same body as a Kani harness."""
        rc, out, err, s = tools.sh([str(self.native.get()[0]), 'list'], ROOT, 60)
        full = [l for l in out.split() if l.startswith(self.prop + '/')]
        exact = [l for l in full if l.split('/', 1)[1] == kani_name]
        return exact, full

    def judge_kani(self, run):
        proved = bounded = checks = 0
        undecided = []
        for r in run['results']:
            if r['status'] == 'proved':
                self.kani_proved.add(r['name'])
                if any(b in r['name'] for b in plan.BOUNDED):
                    bounded += 1
                else:
                    proved += 1
                    checks += r['checks']
            elif r['status'] == 'failed':
                self.kani_failed(r)
            else:
                undecided.append(r['name'])
        if not run['complete']:
            self.notes.append('Kani ran out of time')
        if undecided:
            self.notes.append('Kani undecided: ' + ', '.join(undecided))
        self.cover.update(kani_proofs=proved, kani_bounded=bounded, kani_checks=checks, kani_undecided=undecided,
                          kani_seconds=round(run['seconds'], 1), kani_solver_seconds=round(sum(r['seconds'] or 0 for r in run['results']), 1))
        self.kani_complete = run['complete'] and bool(run['results']) and all(r['status'] == 'proved' for r in run['results'])
        self.kani_total = len(run['results'])

    def kani_failed(self, r):
        if self.violations:
            # One failing input is enough; getting each from Kani takes its time.
            self.also.append(r['name'])
            return
        exact, full = self.names(r['name'])
        for name in exact:
            for inp in ['-'] + tools.playback(r['name']):
                broke, rest = self.confirm(name, inp)
                if broke:
                    self.violation('input', f'{name}: {rest}', harness=name, input=inp, kani=r['name'], obligations=r['genuine'])
                    return
        self.open_obligations.append(('Kani', r['name'], '; '.join(r['genuine'])[:600], {'kani': r['name'], 'obligations': r['genuine']}))

    # -- Verus ------------------------------------------------------------------------------------
    def verus_part(self):
        tool = tools.build_extract()
        parts = tuple(x for x in plan.PARTS.get(self.prop, ()) if x != 'forms')
        # The built-in forms are verified on their own: some hundred more impls would only slow the other proofs down.
        forms = Part(deductive.decide, tool, BUILD / f'forms-{self.prop}', ('forms',)) if 'forms' in plan.PARTS.get(self.prop, ()) else None
        base = derives.COUNTS
        if self.tier == 'thorough':
            derives.COUNTS, deductive.RLIMIT = base + derives.MORE, 200
        counts = derives.COUNTS
        v = deductive.decide(tool, BUILD / f'contracts-{self.prop}', parts, 300 if self.tier == 'quick' else 3600)
        derives.COUNTS, deductive.RLIMIT = base, 30
        if forms:
            v = deductive.merge(v, forms.get())
        # Contracts that prove false say nothing. The generated structs' take minutes to try.
        more = [parts] + ([('forms',)] if forms else []) if self.tier == 'thorough' else [()]
        tried = [deductive.vacuous(tool, BUILD / f'vacuity-{self.prop}', p) for p in more] if v['usable'] else []
        derives.COUNTS = counts
        v['vacuous'] = (sum(t[0] for t in tried), sum((t[1] for t in tried), [])) if tried and all(tried) else None
        return v

    def judge_verus(self, v):
        self.verus_ok = v['usable']
        mine_total = mine_ok = 0
        if not v['usable']:
            self.notes.append('contracts out of reach on this tree: ' + v['why'])
            self.lost = [('all contracts', v['why'])]
            self.cover.update(verus_out_of_reach=['all: ' + v['why'][:300]])
            return
        mine = [c for c in v['clauses'] if self.prop in c[3]]
        bad = {(f['source'], f['fn']) for f in v['violations']} | {(f['source'], f['fn']) for f in v['out_of_reach']}
        mine_total = len(mine)
        mine_ok = sum(1 for c in mine if (c[0], c[1]) not in bad)
        fns = sorted({f'{c[0]}: {c[1]}' for c in mine if c[1]})
        self.lost = [(f'{f["source"]}: {f["fn"]}', f['why']) for f in v['out_of_reach']
                     if any(c[0] == f['source'] and c[1] == f['fn'] for c in mine) or self.prop in deductive.own(f['source'], f['fn'])]
        kani_whole = bool(self.kani_proved) and self.kani_complete
        for f in v['violations']:
            by = plan.KANI_INSTEAD.get((f['source'], f['fn']))
            if by in self.kani_proved:
                self.lost.append((f'{f["source"]}: {f["fn"]}', f'{f["what"]}; proved for all powers of two by Kani ({by})'))
            elif self.prop in f['properties'] and f['source'] in plan.KANI_TOO and kani_whole:
                self.lost.append((f'{f["source"]}: {f["fn"]}', f'{f["what"]}: {f["clause"]}; Kani proves the property of these types on the compiled crate'))
            elif self.prop in f['properties']:
                self.open_obligations.append(('Verus', f'{f["source"]}: {f["fn"]}', f'{f["what"]}: {f["clause"]}', {'verifier_output': f['output']}))
        if v['vacuous']:
            self.cover.update(vacuity_checked=v['vacuous'][0])
            self.lost += [(f, 'its contract is vacuous') for f in v['vacuous'][1]]
        vr = v['totals']
        self.cover.update(verus_clauses=mine_total, verus_clauses_discharged=mine_ok, functions_under_contract=fns,
                          verus_queries_verified=vr.get('verified', 0), verus_queries_failed=vr.get('errors', 0),
                          verus_solver_ms=vr['solver_ms'],
                          verus_out_of_reach=[f'{a}: {b}' for a, b in self.lost])
        self.verus_cmd = ' '.join(v['run']['cmd'])

    # -- known findings ---------------------------------------------------------------------------
    def strides(self):
        """C14: what a writer does with slices of every supported element type, against the GLSL stride."""
        rc, out, err, s = tools.sh([str(self.native.get()[0]), 'strides'], ROOT, 300)
        listed = {}
        for l in FINDINGS.read_text().splitlines():
            m = re.match(r'finding: property=C14 (std\d+) (\S+) observed=(\d+) expected=(\d+)', l)
            if m:
                listed[m.group(1), m.group(2)] = (m.group(3), m.group(4))
        seen = 0
        for l in out.splitlines():
            if not l.startswith('STRIDE '):
                continue
            _, lay, ty, got, want = l.split()
            seen += 1
            if got == want:
                continue
            if listed.get((lay, ty)) == (got, want):
                if (lay, ty) not in self.known:
                    self.known.append((lay, ty))
                    print(f'KNOWN-FINDING: property=C14 {lay} slice of {ty}: elements are {got} bytes apart, GLSL array stride is {want}')
            else:
                self.violation('input', f'{lay} slice of {ty}: elements are {got} bytes apart, GLSL array stride is {want}',
                               harness='strides', input=f'{lay} {ty}', observed=got, expected=want)
        if not seen:
            raise Broken('vh strides measured nothing: ' + err[-400:])
        self.cover['native_runs'] = self.cover.get('native_runs', 0) + seen

    # -- the whole --------------------------------------------------------------------------------
    def run(self):
        self.cores = 4 if self.tier == 'quick' else 6
        self.open_obligations, self.lost, self.died, self.also, self.kani_proved = [], [], None, [], set()
        self.kani_complete = False
        self.verus_cmd = ''
        self.native = Part(tools.build_native, self.seed)
        kani = Part(self.kani_part)
        release = Part(tools.build_release, self.seed)
        verus = Part(self.verus_part) if self.prop in plan.CONTRACTS else None
        try:
            refused = self.native.get()[1]
        except DoesNotCompile as e:
            self.compile_error('structs and values of the harness (harness/src), which use the crate as documented', str(e))
            self.evidence(True)
            return 1
        if refused:
            self.notes.append('generated shapes do not compile: ' + refused[:600])
            if self.prop in plan.DERIVES:
                self.compile_error('structs of named fields with supported field types (vlib/shapes.py)', refused)
        if self.prop == 'C14':
            self.strides()
        hit = self.search(plan.SEARCH_SECONDS[self.tier])
        if hit:
            self.violation('input', f'{hit[0]}: {hit[2]}', harness=hit[0], input=hit[1])
        kani_dead = None
        try:
            self.judge_kani(kani.get())
        except Broken as e:
            # The native build of the same harness works, so this is Kani's own limit.
            kani_dead = str(e)
            self.notes.append('Kani unusable on this tree: ' + kani_dead[:800])
            self.cover.update(kani_proofs=0, kani_bounded=0, kani_checks=0, kani_undecided=['all'])
        if verus:
            self.judge_verus(verus.get())
        weak = bool(self.open_obligations or self.lost or kani_dead or self.cover.get('kani_undecided') or self.died)
        if weak and not self.violations and 'exit None' not in (self.died or ''):
            hit = self.search(plan.DEEP_SECONDS[self.tier], self.seed + 1000)
            if hit:
                self.violation('input', f'{hit[0]}: {hit[2]}', harness=hit[0], input=hit[1],
                               failed_obligations=[o[:3] for o in self.open_obligations])
        # What only differs without debug assertions.
        if release.get() and not self.violations and not self.died:
            hit = self.search(plan.RELEASE_SECONDS[self.tier], self.seed + 2000, release.get())
            self.cover['release_build_searched'] = 1
            if hit:
                self.violation('input', f'{hit[0]}: {hit[2]} (built with --release)', harness=hit[0], input=hit[1], profile='release')
        if self.died and not self.violations:
            self.violation('died', f'the real code killed the process under native search: {self.died}')
        if self.open_obligations and not self.violations:
            for tool, name, what, more in self.open_obligations[:5]:
                self.violation('obligation', f'{tool}: obligation not discharged: {name}: {what}', **more)
        if self.also:
            self.notes.append('further failing proofs: ' + ', '.join(self.also[:40]))
        self.evidence(weak)
        for n in self.notes:
            print('  note:', n)
        print(f'{self.prop} {self.tier}: {"BROKEN" if self.violations else "held"} in {time.time() - self.t0:.0f} s; '
              + ', '.join(f'{k}={v}' for k, v in self.cover.items() if isinstance(v, (int, float))))
        return 1 if self.violations else 0

    def evidence(self, weak):
        c = self.cover
        obligations = c.get('verus_clauses', 0) + c.get('kani_checks', 0)
        discharged = c.get('verus_clauses_discharged', 0) + c.get('kani_checks', 0)
        complete = not weak and not self.violations and obligations > 0
        cmd = ' ; '.join(x for x in (self.verus_cmd, ' '.join(tools.KANI + sum((['--harness', h] for h in plan.KANI[self.prop]), [])) if plan.KANI[self.prop] else '') if x)
        cov = {'obligations': obligations, 'discharged': discharged, 'checker_cmd': cmd,
               'trusted_base': plan.TRUSTED(self.prop), **c,
               'explanation': ('Every obligation was generated from /repo\'s current source and discharged on this run. ' if complete else
                               'Not every obligation could be decided on this tree; the parts listed as out of reach or undecided were only tested. ')
               + plan.EXPLAIN[self.prop],
               'bounded_not_proved': plan.BOUNDED_TEXT.get(self.prop, ''), 'notes': self.notes,
               'known_findings': [' '.join(k) for k in self.known]}
        (ROOT / 'evidence').mkdir(exist_ok=True)
        (ROOT / 'evidence' / f'{self.prop}.json').write_text(json.dumps({
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'proof' if complete else 'other',
            'coverage': cov, 'assumptions': plan.ASSUMED(self.prop), 'wall_s': round(time.time() - self.t0, 1),
            'violations': len(self.violations)}, indent=1) + '\n')


def replay(path):
    d = json.loads(Path(path).read_text())
    print(d['what'])
    if d['kind'] not in ('input', 'compile'):
        print(d.get('verifier_output', d))
        return 1
    try:
        b, refused = (tools.build_release(d.get('seed', 1)), None) if d.get('profile') else tools.build_native(d.get('seed', 1))
    except DoesNotCompile as e:
        b, refused = None, str(e)
    if refused:
        print(refused)
    if d['kind'] == 'compile' or b is None:
        return int(bool(refused))
    if d['harness'] == 'strides':
        rc, out, err, s = tools.sh([str(b), 'strides'], ROOT, 300)
        lay, ty = d['input'].split()
        hits = [l for l in out.splitlines() if l.split()[1:3] == [lay, ty]]
        print('\n'.join(hits))
        return int(any(l.split()[3] != l.split()[4] for l in hits))
    word, rest, out = tools.vh(b, 'replay', d['harness'], d['input'])
    print(word, rest)
    return int(word in ('BROKEN', 'DIED'))


def main():
    if sys.argv[1] == 'replay':
        return replay(sys.argv[2])
    if sys.argv[1] == 'setup':
        # Nothing is kept from here: every check builds for itself. This only shows that the tools work.
        tools.build_extract()
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        return Check(prop, tier, seed).run()
    except Broken as e:
        print('CHECK ERROR:', e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
