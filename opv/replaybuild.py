"""Builds the real code of /repo's current tree plus one replay driver, and runs it."""
import os, subprocess, hashlib
from concurrent.futures import ThreadPoolExecutor
import extract as ex

REPLAY = os.path.join(os.path.dirname(ex.HERE), 'replay')
# the sanitizer-free optimised build; assertions of the standard library and Eigen stay on
FLAGS = ex.FLAGS


def build(workdir, pid, pch, jobs=8):
    """-> (binary or None, error text)"""
    drv = os.path.join(REPLAY, pid + '.cpp')
    if not os.path.exists(drv):
        return None, 'no replay driver'
    obj = os.path.join(workdir, 'obj')
    os.makedirs(obj, exist_ok=True)
    srcs = ex.repo_sources()
    errs = []

    def comp(a):
        i, s = a
        o = os.path.join(obj, '%03d.o' % i)
        extra = ['-I' + REPLAY] if s == drv else []
        r = subprocess.run([ex.CLANG] + FLAGS + extra + ['-include-pch', pch, '-c', s, '-o', o], capture_output=True, text=True)
        if r.returncode:
            errs.append('%s: %s' % (s, r.stderr[:1500]))
        return o
    with ThreadPoolExecutor(jobs) as t:
        objs = list(t.map(comp, list(enumerate([drv] + srcs))))
    if errs:
        return None, errs[0]
    out = os.path.join(workdir, 'replay_' + pid)
    r = subprocess.run([ex.CLANG] + objs + ['-o', out, '-lpthread'], capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr[:1500]
    return out, None


def run(binary, seed, scale, poolfile, timeout):
    """-> dict(cases, nontrivial, fails=[text], sample, error)"""
    res = dict(cases=0, nontrivial=0, fails=[], samples=[], error=None)
    try:
        p = subprocess.run([binary, str(seed), str(scale), poolfile], capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
        parse(out, res)
        # the drivers are sized to finish in seconds on the unchanged tree: a run this long is a hang of the code under test
        res['error'] = 'timeout after %ds' % timeout
        res['hang'] = True
        return res
    parse(p.stdout, res)
    if p.returncode not in (0, 1):
        res['crash'] = 'driver ended with status %d (last case: %s) %s' % (p.returncode, res.get('last', '?'), p.stderr[-400:])
        res['fails'].append('crash: ' + res['crash'])
    elif p.returncode == 1 and not res['fails']:
        res['error'] = 'driver failed: ' + p.stderr[-400:]
    return res


def parse(out, res):
    for l in out.splitlines():
        if l.startswith('FAIL '):
            if len(res['fails']) < 20:
                res['fails'].append(l[5:])
        elif l.startswith('CASES '):
            a = l.split()
            res['cases'], res['nontrivial'] = int(a[1]), int(a[2])
        elif l.startswith('SAMPLE '):
            res['samples'].append(l[7:])
        elif l.startswith('AT '):
            res['last'] = l[3:]
