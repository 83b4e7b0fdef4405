"""Fallback solver configurations for obligations the incremental z3 run did not
settle: a fresh z3 with MBQI, then cvc5."""
import os
import shutil
import subprocess
import tempfile

import z3

STATS = {'cvc5': 0, 'z3-mbqi': 0}
CVC5 = '/usr/local/bin/cvc5'


def _find_cvc5():
    import shutil
    return shutil.which('cvc5')


class Outside:
    """the same query for another solver in its own process"""

    def __init__(self, args, txt):
        fd, self.path = tempfile.mkstemp(suffix='.smt2')
        os.write(fd, txt.encode())
        os.close(fd)
        self.p = subprocess.Popen(args + [self.path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.out = None

    def answer(self, wait=0):
        if self.out is None:
            try:
                self.out = self.p.communicate(timeout=max(wait, 0.01))[0].strip().split('\n')[0]
            except subprocess.TimeoutExpired:
                return None
        return self.out

    def stop(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.communicate()
        os.unlink(self.path)


def second_opinion(pc, goal, tmo, quiet=False, spec=None):
    """-> (status, backend, detail); status ok | failed | unknown"""
    def fill(s):
        for c in pc:
            s.add(c)
        s.add(z3.Not(goal))
        return s
    t = fill(z3.Solver()).to_smt2()
    txt = '(set-logic ALL)\n' + '\n'.join(l for l in t.split('\n') if not l.startswith('(set-info') and not l.startswith('(set-logic'))
    outside = []
    try:
        z = shutil.which('z3')
        if z:
            outside.append(('z3-4.8', Outside([z, '-T:%d' % max(5, tmo // 1000)], txt)))
        c5 = _find_cvc5()
        if c5 and not quiet:
            outside.append(('cvc5', Outside([c5, '--tlimit=%d' % (4 * tmo), '--full-saturate-quant'], txt)))

        def proved():
            return next((n for n, o in outside if o.answer() == 'unsat'), None)
        if z and outside[0][1].answer(0.4) == 'unsat':
            return 'ok', 'z3-4.8', ''
        s = z3.Solver()
        s.set('timeout', tmo)
        r = fill(s).check()
        if r == z3.unsat:
            return 'ok', 'z3-mbqi', ''
        detail = ''
        if r == z3.sat:
            return 'failed', 'z3-mbqi', model_text(s.model())
        reason = s.reason_unknown()
        if proved():
            return 'ok', proved(), ''
        if quiet:
            return 'unknown', 'z3', reason
        for seed in (7, 23):
            s2 = z3.Solver()
            s2.set('timeout', tmo)
            s2.set('random_seed', seed)
            if seed == 7:
                s2.set('mbqi', False)
            if fill(s2).check() == z3.unsat:
                return 'ok', 'z3-seed', ''
            if proved():
                return 'ok', proved(), ''
        for n, o in outside:
            out = o.answer(4 * tmo / 1000 + 10)
            if out == 'unsat':
                return 'ok', n, ''
            if n == 'cvc5':
                if out == 'sat':
                    return 'failed', 'cvc5', 'cvc5: sat'
                detail = 'z3: %s; cvc5: %s' % (reason, out or 'timeout')
        return 'unknown', 'z3+cvc5', detail or 'z3: %s' % reason
    finally:
        for n, o in outside:
            o.stop()


def model_text(m):
    out = []
    for d in sorted(m.decls(), key=lambda d: d.name()):
        if d.arity() == 0:
            v = m[d]
            t = str(v)
            if len(t) < 200:
                out.append('%s = %s' % (d.name(), t))
        if len(out) > 60:
            break
    return '; '.join(out)
