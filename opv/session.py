"""Proof session: runs proof scripts over the extracted program and records every obligation."""
import os, sys, time, traceback, multiprocessing as mp
import z3
import logic, sym, program, lib, loops
from logic import *
from sym import *
from program import *


class Report:
    def __init__(self, script, prover, timeout):
        self.script, self.pr, self.timeout = script, prover, timeout
        self.obs = {}            # key -> dict
        self.used, self.under, self.assume = set(), {}, set()
        self.deadline = None
        self.noterm = []         # loops not shown to end

    def obligation(self, x, goal, label, timeout=None):
        key = (label, gkey(goal), tuple(id(h) if isinstance(h, All) else h.get_id() for h in x.pc))
        o = self.obs.get(key)
        if o is not None:
            return o['ok']
        t0 = time.time()
        model = None
        tmo = timeout or self.timeout
        nfail = sum(1 for q in self.obs.values() if not q['ok'])
        if nfail > 6:
            tmo = min(tmo, 2.0)
        if self.deadline and time.time() > self.deadline:
            tmo = 0.5
        if x.mode == 'fp':
            st, info = self.fp(x, goal, tmo)
        else:
            st, info = self.pr.prove(x.pc, goal, tmo)
        ok = st == 'proved'
        if not ok and st.startswith('refuted') and info is not None:
            model = model_text(info)
        fn = [f.rec['q'] for f in x.frames if f.rec is not None]
        self.obs[key] = dict(label=label, ok=ok, status=st, backend=info if ok else None, model=model,
                             s=time.time() - t0, where=fn[-1] if fn else 'contract', script=self.script,
                             goal=str(goal)[:1500] if not ok else None,
                             hyps=[str(h)[:300] for h in x.pc[-40:]] if not ok else None,
                             keep=(goal, list(x.pc)))
        return ok

    def fp(self, x, goal, tmo):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        g = z3.simplify(goal)
        if z3.is_true(g):
            return 'proved', 'trivial'
        s = z3.Solver()
        s.set('timeout', int(tmo * 1000))
        for h in x.pc:
            if not isinstance(h, All):
                s.add(h)
        for f in self.pr.straxioms():
            s.add(f)
        s.add(z3.Not(goal))
        t0 = time.time()
        r = s.check()
        self.pr.stats.add('z3', time.time() - t0)
        if r == z3.unsat:
            return 'proved', 'z3'
        if r == z3.sat:
            return 'refuted', s.model()
        rr = self.pr.cvc5([h for h in x.pc if not isinstance(h, All)] + [z3.Not(goal)], tmo)
        if rr == 'unsat':
            return 'proved', 'cvc5'
        return 'unknown', None

    def used_contract(self, q): self.used.add(q)

    def under_contract(self, f):
        self.under[f['q']] = self.under.get(f['q'], 0) + 1

    def assumed(self, t): self.assume.add(t)


def gkey(g):
    if isinstance(g, All):
        return ('all', g.guard.get_id(), g.concl.get_id())
    if isinstance(g, (list, tuple)):
        return tuple(gkey(h) for h in g)
    return g if isinstance(g, bool) else g.get_id()


def model_text(m):
    out = {}
    try:
        for d in m.decls()[:60]:
            if d.arity() == 0:
                out[d.name()] = str(m[d])
    except Exception:
        pass
    return out


class Script:
    def __init__(self, name, fn, mode='real', contracts=None, timeout=8.0, minob=1, slow=1.0):
        self.slow = slow        # factor on the time budget
        self.name, self.fn, self.mode, self.contracts, self.timeout, self.minob = name, fn, mode, contracts or {}, timeout, minob


SCALE = 1.0


def run_script(prog, sc, budget):
    pr = Prover(sc.timeout * SCALE)
    pr.scale = SCALE
    rp = Report(sc.name, pr, sc.timeout * SCALE)
    x = Exec(prog, pr, sc.mode, dict(sc.contracts), rp)
    x.limit = time.time() + budget * sc.slow
    t0 = time.time()
    res = dict(script=sc.name, error=None, kind='ok', paths=0)
    try:
        sys.setrecursionlimit(20000)
        res['paths'] = x.run(sc.fn)
    except Unsupported as e:
        res['kind'], res['error'] = 'unsupported', str(e)
        if os.environ.get('OPV_DEBUG'):
            traceback.print_exc()
    except PathLimit as e:
        res['kind'], res['error'] = 'limit', str(e)
    except HiddenState as e:
        res['kind'], res['error'] = 'hidden', str(e)
    except RecursionError as e:
        res['kind'], res['error'] = 'unsupported', 'recursion'
    except Exception as e:
        res['kind'], res['error'] = 'internal', '%s: %s' % (type(e).__name__, e)
        res['tb'] = traceback.format_exc()[-3000:]
        if os.environ.get('OPV_DEBUG'):
            traceback.print_exc()
    obs = []
    for o in rp.obs.values():
        o = dict(o)
        o.pop('keep', None)
        o['backend'] = o['backend'] if isinstance(o['backend'], str) else ('conj' if o['ok'] else None)
        obs.append(o)
    if res['kind'] == 'ok' and (res['paths'] < 1 or len(obs) < sc.minob):
        res['kind'], res['error'] = 'vacuous', '%d paths, %d obligations' % (res['paths'], len(obs))
    res.update(noterm=sorted(set(rp.noterm)), obs=obs, used=sorted(rp.used), under=sorted(rp.under), assumed=sorted(rp.assume),
               stats={'n': pr.stats.n, 't': pr.stats.time}, wall=time.time() - t0)
    return res


_G = {}


def _worker(i, q):
    prog, scripts, budget = _G['prog'], _G['scripts'], _G['budget']
    try:
        r = run_script(prog, scripts[i], budget)
    except BaseException as e:
        r = dict(script=scripts[i].name, kind='internal', error=repr(e), obs=[], used=[], under=[], assumed=[],
                 stats={'n': {}, 't': {}}, wall=0, paths=0)
    q.put((i, r))


def run_all(prog, scripts, budget=240, jobs=8, wall=420):
    """each script in its own process (memory- and time-limited)"""
    _G.update(prog=prog, scripts=scripts, budget=budget)
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    todo = list(range(len(scripts)))
    live = {}
    res = {}
    t0 = time.time()
    import queue
    while todo or live:
        while todo and len(live) < jobs:
            i = todo.pop(0)
            p = ctx.Process(target=_worker, args=(i, q), daemon=True)
            p.start()
            live[i] = (p, time.time())
        try:
            i, r = q.get(timeout=0.2)
            res[i] = r
            p, _ = live.pop(i)
            p.join(5)
        except queue.Empty:
            pass
        for i in list(live):
            p, ts = live[i]
            dead = not p.is_alive() and q.empty()
            if dead or time.time() - ts > budget * scripts[i].slow + 60 or time.time() - t0 > wall:
                if dead:
                    try:
                        while True:
                            j, r = q.get(timeout=0.3)
                            res[j] = r
                            live.pop(j, None)
                    except queue.Empty:
                        pass
                    if i in res:
                        continue
                p.kill()
                live.pop(i, None)
                res[i] = dict(script=scripts[i].name, kind='limit', error='time or memory limit', obs=[], used=[],
                              under=[], assumed=[], stats={'n': {}, 't': {}}, wall=time.time() - ts, paths=0)
    return [res[i] for i in range(len(scripts))]
