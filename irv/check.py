"""Decide one property: verify every contract it rests on against /repo's current
sources, replay on the real code when an obligation fails, write the evidence."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

from . import build, run
from .props import PROPS
from .ir import IRError

VERIF = build.VERIF
REPO = build.REPO
EVID = os.path.join(VERIF, 'evidence')

BASE_TRUST = [
    'the VC generator irv (this repository) and its memory model: objects reached through the declared layout do not overlap, except where the contract says so',
    'clang-18 front end and the LLVM passes sroa, simplifycfg, early-cse, inlining, loop-simplify (the code verified is their output for /repo\'s sources)',
    'z3 4.x (python binding) and cvc5 as the provers',
]


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known: property=(\S+) fn=(.+?) obligation=(.+?) :: (.*)', ln.strip())
            if m:
                out.append(dict(prop=m.group(1), fn=m.group(2), obl=m.group(3), what=m.group(4)))
    return out


class Harness:
    def __init__(self, src, sources=(), flags=(), includes=(), args=(), timeout=300, tsan=False, san='address,undefined', label=None, std='c++20'):
        self.src, self.sources, self.flags, self.includes = src, list(sources), list(flags), list(includes)
        self.args, self.timeout, self.san, self.label, self.std = list(args), timeout, san, label or src, std

    def start(self, tier, seed, work):
        exe = os.path.join(work, 'h%d' % abs(hash((self.src, tuple(self.flags), tuple(self.args)))))
        cmd = ['g++', '-std=' + self.std, '-g', '-O1', '-w']
        if self.san:
            cmd += ['-fsanitize=' + self.san, '-fno-sanitize-recover=all']
        cmd += ['-I' + os.path.join(VERIF, 'replay', i) for i in self.includes]
        cmd += ['-I' + REPO + '/src', '-I' + os.path.join(VERIF, 'replay')] + self.flags
        cmd += [os.path.join(VERIF, 'replay', self.src)] + [os.path.join(REPO, s) if not s.startswith('+') else os.path.join(VERIF, 'replay', s[1:]) for s in self.sources]
        cmd += ['-o', exe, '-lpthread']
        self.build_cmd = ' '.join(cmd)
        self.exe = exe
        self.tier, self.seed = tier, seed
        self.p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return self

    def finish(self):
        """-> dict(status: pass|fail|build|timeout, out)"""
        out, _ = self.p.communicate()
        if self.p.returncode != 0:
            return dict(status='build', out=out[-3000:], h=self)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:handle_segv=0:handle_abort=0:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=0')
        t0 = time.time()
        try:
            p = subprocess.run([self.exe, self.tier, str(self.seed)] + self.args, capture_output=True, text=True, errors='replace',
                               timeout=self.timeout if self.tier == 'quick' else 4 * self.timeout, env=env)
        except subprocess.TimeoutExpired as e:
            return dict(status='timeout', out=((e.stdout or b'')[-2000:]).decode(errors='replace') if isinstance(e.stdout, bytes) else str(e.stdout)[-2000:], h=self, wall=time.time() - t0)
        o = p.stdout + p.stderr
        if p.returncode == 0 and 'PASS' in p.stdout:
            return dict(status='pass', out=p.stdout[-3000:], h=self, wall=time.time() - t0)
        if 'FAIL' in o or 'runtime error' in o or 'ERROR: AddressSanitizer' in o or p.returncode < 0:
            return dict(status='fail', out=o[-30000:], h=self, wall=time.time() - t0)
        return dict(status='timeout', out='exit %d: %s' % (p.returncode, o[-2000:]), h=self, wall=time.time() - t0)


def run_harnesses(hs, tier, seed):
    work = tempfile.mkdtemp(prefix='irvh.')
    try:
        from concurrent.futures import ThreadPoolExecutor
        for h in hs:
            h.start(tier, seed, work)
        with ThreadPoolExecutor(max_workers=8) as ex:
            return list(ex.map(lambda h: h.finish(), hs))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.exit(check(pid, tier, seed))


def check(pid, tier, seed):
    t0 = time.time()
    P = PROPS[pid]
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    proved, failed, outside, suppressed = [], [], [], []
    nob = ndis = 0
    solver = 0.0
    backends = {}
    assum = set(P.get('assumptions', ()))
    trusted = set()
    digests = []
    build_errs = []
    kf = [k for k in known_findings() if k['prop'] == pid]
    only = P.get('only', {})
    kinds = {}
    # The replay harness runs beside the proof: a bounded complement (never counted as
    # proved) and the source of failing inputs when an obligation fails.
    hs = P['harness']()
    hres = []
    ht = threading.Thread(target=lambda: hres.extend(run_harnesses(hs, tier, seed)))
    ht.start()
    for modname in P['specs']:
        try:
            results = run.run_spec(modname, only=None, timeout=P.get('timeout', 8000) * (4 if tier == 'thorough' else 1),
                                   budget=P.get('budget', 200) * (3 if tier == 'thorough' else 1), select=only.get(modname))
        except (build.BuildError, IRError, Exception) as e:   # the instantiation unit does not compile / cannot be read
            build_errs.append('%s: %s: %s' % (modname, type(e).__name__, str(e)[-1500:]))
            outside.append((modname, 'not readable: %s' % str(e)[-300:]))
            continue
        for spec, mod, res, missing in results:
            digests.append('%s:%s' % (spec.tu, mod.digest))
            assum.update(getattr(spec, 'assumptions', ()))
            for c in spec.contracts:
                if c.trusted:
                    trusted.add('assumed contract: %s (%s)' % (c.label or c.name, getattr(c, 'why', 'body not verified')))
            for m in missing:
                outside.append((m, 'function under contract not found in the compiled code'))
            for r in res:
                bad = [o for o in r['obls'] if o['status'] != 'ok']
                sup = []
                for o in bad:
                    for k in kf:
                        if k['fn'] == r['label'] and re.search(k['obl'], o['label']):
                            sup.append((o, k))
                            break
                bad = [o for o in bad if not any(o is s[0] for s in sup)]
                suppressed += [(r, o, k) for o, k in sup]
                solver += r['solver']
                for k, v in r['backends'].items():
                    backends[k] = backends.get(k, 0) + v
                assum.update(r['assumptions'])
                for o in r['obls']:
                    kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
                nob += len(r['obls'])
                ndis += sum(1 for o in r['obls'] if o['status'] == 'ok')
                if r['err'] is not None:
                    outside.append((r['label'], r['err'][-600:]))
                if bad:
                    failed.append((r, bad))
                elif r['err'] is None:
                    if not r['obls']:
                        outside.append((r['label'], 'no obligations generated'))
                    else:
                        proved.append(r)
    ht.join()
    hfail = [h for h in hres if h['status'] == 'fail']
    hbad = [h for h in hres if h['status'] in ('build', 'timeout')]
    for r, o, k in suppressed:
        print('KNOWN-FINDING: property=%s %s: %s (%s)' % (pid, r['label'], k['what'], o['label']))
    # ---- verdict
    rc = 0
    lines = []
    rep = os.path.join(EVID, 'replay', pid + '.txt')
    if failed or hfail:
        with open(rep, 'w') as f:
            f.write('property %s, tier %s, seed %d\n\n' % (pid, tier, seed))
            for r, bad in failed:
                for o in bad:
                    f.write('FAILED OBLIGATION in %s\n  %s\n  at %s\n  verdict: %s (%s)\n  verifier output: %s\n\n' % (
                        r['fn'], o['label'], o['loc'], o['status'], o['backend'], o['detail']))
            for h in hres:
                f.write('REPLAY on the real code: %s -> %s\n  build: %s\n  run: <exe> %s %d %s\n%s\n' % (
                    h['h'].label, h['status'], h['h'].build_cmd, tier, seed, ' '.join(h['h'].args), h['out']))
        for r, bad in failed:
            for o in bad[:4]:
                lines.append('failed obligation: %s: %s [%s]' % (r['label'], o['label'], o['loc']))
        for h in hfail:
            m = re.search(r'FAIL.*', h['out'])
            lines.append('failing input on the real code (%s): %s' % (h['h'].label, m.group(0)[:300] if m else h['out'][-300:]))
        rc = 1
    elif outside or build_errs:
        for nm, why in outside:
            lines.append('outside the verifier\'s reach in this run: %s (%s)' % (nm, why[:200].replace('\n', ' ')))
        if not hs or hbad:
            rc = 2
            lines.append('no stand-in result for it: ' + '; '.join('%s %s %s' % (h['h'].label, h['status'], h['out'][-400:]) for h in hbad))
        else:
            lines.append('bounded stand-in passed for it (%d harness runs)' % len(hres))
    elif hbad:
        lines.append('no answer from the bounded complement (the proof stands on its own): ' + '; '.join('%s %s %s' % (h['h'].label, h['status'], h['out'][-300:]) for h in hbad))
    if not proved and rc == 0 and not outside:
        rc = 2
        lines.append('no function was verified')
    # ---- evidence
    tb = BASE_TRUST + sorted(trusted)
    evaluations = 0
    bsum = []
    for h in hres:
        n = sum(int(x) for x in re.findall(r'(?:SPACE|RANDOM) .*?: (\d+) cases', h['out']))
        evaluations += n
        bsum.append(dict(harness=h['h'].label, status=h['status'], cases=n, spaces=re.findall(r'(?:SPACE|RANDOM) .*', h['out'])))
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get('level', 'proof'), coverage=dict(
        obligations=nob, discharged=ndis, checker_cmd='./check.sh %s %s' % (pid, tier), trusted_base=tb,
        functions_under_contract=[dict(function=r['fn'], label=r['label'], obligations=len(r['obls']), paths=r['paths'], wall_s=round(r['wall'], 2),
                                       solver_s=round(r['solver'], 2)) for r in proved],
        functions_failed=[dict(function=r['fn'], failed=[o['label'] for o in bad]) for r, bad in failed],
        outside_reach=[dict(function=a, why=b) for a, b in outside],
        obligations_by_kind=kinds, discharged_by_backend=backends, solver_s=round(solver, 2),
        bounded_not_proved=P.get('bounded', []), bounded_runs=bsum,
        explanation=P.get('explanation', ''), ir_digests=digests, evaluations=evaluations,
        rule='bounded stand-in runs only: choice sequences enumerated or drawn by the harness; not counted as proved',
        known_findings=[k['what'] for _, _, k in suppressed]),
        assumptions=sorted(assum), wall_s=round(time.time() - t0, 2), violations=1 if rc == 1 else 0)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d functions under contract, %d obligations, %d discharged, %.1fs solver, %.1fs wall' % (
        pid, len(proved) + len(failed), nob, ndis, solver, time.time() - t0))
    for b in bsum:
        print('  %s: %s, %d cases (bounded)' % (b['harness'], b['status'], b['cases']))
    for ln in lines:
        print('  ' + ln)
    if rc == 1:
        print('VIOLATION property=%s replay=%s%s' % (pid, os.path.relpath(rep, VERIF), '' if hfail else ' no-failing-input-found'))
    elif os.path.exists(rep):
        os.unlink(rep)
    return rc


if __name__ == '__main__':
    main()
