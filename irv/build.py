"""Compile /repo's current sources (through a small instantiation TU) to LLVM IR."""
import hashlib
import os
import re
import subprocess
import tempfile

from .ir import Module

REPO = os.environ.get('IRV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = 'clang++-18'
OPT = 'opt-18'
FLAGS = ['-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-fno-rtti',
         '-fno-discard-value-names', '-gline-tables-only', '-fno-access-control', '-fno-strict-aliasing',
         '-fno-vectorize', '-fno-slp-vectorize', '-fno-threadsafe-statics', '-w', '-S', '-emit-llvm']


class BuildError(Exception):
    pass


def which(n, alt):
    import shutil
    return shutil.which(n) or shutil.which(alt) or n


def demangle(names):
    p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return p.stdout.split('\n')[:len(names)]


def compile_tu(tu, spec, extra=(), ndebug=False):
    """-> (Module, {mangled: demangled})"""
    d = tempfile.mkdtemp(prefix='irv.')
    try:
        raw = os.path.join(d, 'a.ll')
        cl = which('clang++-18', 'clang++')
        cmd = [cl] + FLAGS + ['-I' + REPO + '/src', '-I' + REPO, '-I' + VERIF + '/tus'] + list(extra) + [os.path.join(VERIF, 'tus', tu), '-o', raw]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            raise BuildError('clang failed on %s:\n%s' % (tu, p.stderr[-3000:]))
        txt = open(raw).read()
        # constructor aliases
        for al, tgt in re.findall(r'^(@[-a-zA-Z$._0-9]+) = [^\n]*\balias\b[^\n]*, ptr (@[-a-zA-Z$._0-9]+)$', txt, re.M):
            txt = re.sub(r'^' + re.escape(al) + r' = .*\n', '', txt, flags=re.M)
            txt = re.sub(re.escape(al) + r'(?![-a-zA-Z$._0-9])', tgt, txt)
        names = re.findall(r'^define [^@]*@("[^"]*"|[-a-zA-Z$._0-9]+)\(', txt, re.M)
        names = [n.strip('"') for n in names]
        decls = [n.strip('"') for n in re.findall(r'^declare [^@]*@("[^"]*"|[-a-zA-Z$._0-9]+)\(', txt, re.M)]
        dem = dict(zip(names + decls, demangle(names + decls)))
        keep = [n for n in names if spec.is_contract(n, dem[n])]
        rest = [n for n in names if n not in set(keep) and not spec.no_inline(n, dem[n])]
        # functions under contract keep their boundary; everything else is inlined
        attrs = set(re.findall(r'#\d+', txt))
        t2 = []
        keepset, restset = set(keep), set(rest)
        for ln in txt.split('\n'):
            if ln.startswith('define '):
                m = re.match(r'define [^@]*@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                n = m.group(1).strip('"')
                att = 'alwaysinline' if n in restset else 'noinline'
                # put the attribute before the attribute-group reference
                k = ln.rfind(' #')
                if k < 0:
                    k = ln.rfind(' {')
                ln = ln[:k] + ' ' + att + ln[k:]
            t2.append(ln)
        txt = '\n'.join(t2)
        # -O1 leaves "noinline"/"alwaysinline" conflicts only where source says so
        for g in re.findall(r'^attributes #\d+ = \{[^\n]*\}', txt, re.M):
            g2 = g.replace(' noinline ', ' ').replace(' alwaysinline ', ' ').replace(' optnone ', ' ')
            if g2 != g:
                txt = txt.replace(g, g2)
        mid = os.path.join(d, 'b.ll')
        open(mid, 'w').write(txt)
        out = os.path.join(d, 'c.ll')
        passes = 'function(sroa,simplifycfg),always-inline,function(sroa,early-cse,simplifycfg,sroa,loop-simplify)'
        p = subprocess.run([which('opt-18', 'opt'), '-passes=' + passes, '-S', mid, '-o', out], capture_output=True, text=True)
        if p.returncode != 0:
            raise BuildError('opt failed on %s:\n%s' % (tu, p.stderr[-3000:]))
        text = open(out).read()
        m = Module(text)
        m.dem = dem
        m.digest = hashlib.sha256(text.encode()).hexdigest()[:16]
        alln = list(m.funcs) + list(m.decls)
        miss = [n for n in alln if n not in dem]
        m.dem.update(zip(miss, demangle(miss)))
        return m
    finally:
        subprocess.run(['rm', '-rf', d])
