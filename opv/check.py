#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Extracts /repo's current sources (clang AST), generates the proof obligations of the property's
contracts from them and discharges every one (algebra normaliser, z3, cvc5); builds the real code
with the property's replay driver, which turns a failed obligation into a failing input.
Exit 0: property holds; 1: VIOLATION line; 2: the check could not decide (error)."""
import os, sys, json, time, shutil, tempfile, importlib, threading, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
PY = '/opt/veriftools/pyvenv/bin/python3'
try:
    import z3
except ImportError:
    os.execv(PY, [PY] + sys.argv)

TRUSTED = [
    'clang 18 front end (AST is the program that is verified)',
    'the obligation generator in /verif/opv (symbolic execution of the AST, library models in lib.py)',
    'z3 4.x (python z3-solver), cvc5 1.1.2, and the exact rational-function normaliser algebra.py',
    'library models: std containers/optional/variant/smart pointers, Eigen dense/sparse algebra, std <random> distributions and boost quasi-random engines as uninterpreted streams',
]
ASSUME = [
    'real-arithmetic obligations: double treated as mathematical reals, operands finite, denominators nonzero (fp-mode obligations use exact IEEE-754 binary64)',
    'signed integer overflow treated as mathematical; unsigned wrap-around modelled; container sizes below 2^31',
    'destructors of locals are not executed; single-threaded execution; calls on interfaces and library calls return or throw (loops carry a proved variant)',
]


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='opv-%s-' % pid)
    try:
        rc = run(pid, tier, seed, work, t0)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(pid, tier, seed, work, t0):
    import extract, replaybuild
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', coverage={}, wall_s=0.0, violations=0)
    try:
        pch = extract.third_party(work)
        tus = extract.extract(work, extra=[os.path.join(HERE, 'inst.cpp')], pch=pch)
    except extract.ExtractError as e:
        print('ERROR: extraction from /repo failed: %s' % e)
        return 2
    built = {}

    def bg():
        built['r'] = replaybuild.build(work, pid, pch, 4)
    th = threading.Thread(target=bg)
    th.start()
    import program, session
    prog = program.Program(tus)
    mod = importlib.import_module('specs.' + pid)
    scripts = mod.SCRIPTS
    budget = 420 if tier == 'thorough' else 200
    res = session.run_all(prog, scripts, budget=budget, jobs=8, wall=400 if tier == 'quick' else 1500)
    # second attempt with longer solver limits for what is not discharged: load must not decide
    again = [i for i, r in enumerate(res) if r['kind'] in ('ok', 'limit') and (r['kind'] == 'limit' or any(not o['ok'] for o in r['obs']))]
    if again and time.time() - t0 < 240:
        session.SCALE = 3.0
        r2 = session.run_all(prog, [scripts[i] for i in again], budget=budget, jobs=8, wall=240 if tier == 'quick' else 1200)
        for i, r in zip(again, r2):
            if r['kind'] == 'ok' or res[i]['kind'] != 'ok':
                res[i] = r
    th.join()
    binary, berr = built.get('r', (None, 'build thread died'))
    proof_s = time.time() - t0

    failed, undecided = [], []
    nobs = ndis = 0
    by, under, used, assumed = {}, set(), set(), set()
    st = {}
    for r in res:
        under |= set(r['under'])
        used |= set(r['used'])
        assumed |= set(r['assumed'])
        for k, v in r['stats']['t'].items():
            st[k] = st.get(k, 0) + v
        for o in r['obs']:
            nobs += 1
            if o['ok']:
                ndis += 1
                by[o['backend'] or 'conj'] = by.get(o['backend'] or 'conj', 0) + 1
        undecided += [dict(script=r['script'], why=w) for w in r.get('noterm', ())]
        if r['kind'] == 'ok':
            failed += [o for o in r['obs'] if not o['ok']]
        elif r['kind'] in ('hidden', 'vacuous'):
            failed.append(dict(script=r['script'], label={'hidden': 'no hidden mutable state', 'vacuous': 'the contract is not vacuous'}[r['kind']],
                               where='contract', goal=r['error'], status=r['kind'], model=None, hyps=None))
        else:
            undecided.append(dict(script=r['script'], why='%s: %s' % (r['kind'], r['error'])))
    # ---- replay on the real code
    rep = None
    if binary:
        pool = set(extract.literals(tus))
        for o in failed:
            for v in (o.get('model') or {}).values():
                try:
                    if '/' in v:
                        a, b = v.split('/')
                        pool.add(float(a) / float(b))
                    else:
                        pool.add(float(v.rstrip('?')))
                except Exception:
                    pass
        pf = os.path.join(work, 'pool')
        with open(pf, 'w') as f:
            for v in sorted(pool):
                f.write('%r\n' % v)
        rounds = [(seed, 1)] if tier == 'quick' else [(seed, 10), (seed + 1000, 10)]
        if (failed or undecided) and tier == 'quick':
            rounds = [(seed, 1), (seed + 7, 3)]
        rep = dict(cases=0, nontrivial=0, fails=[], samples=[], error=None)
        for s, sc in rounds:
            r = replaybuild.run(binary, s, sc, pf, 120 if tier == 'quick' else 600)
            rep['cases'] += r['cases']
            rep['nontrivial'] += r['nontrivial']
            rep['samples'] = (rep['samples'] + r['samples'])[:5]
            rep['error'] = rep['error'] or r['error']
            if r.get('hang'):
                r['fails'].append('no answer within the time limit (last case: %s)' % r.get('last', '?'))
            if r['fails']:
                rep['fails'] = r['fails']
                rep['how'] = '%s seed=%d scale=%d' % (pid, s, sc)
                break
    # ---- decide
    viol = None
    if rep and rep['fails']:
        viol = ''
    elif failed:
        viol = ' no-failing-input-found'
    ev['coverage'] = dict(
        obligations=nobs, discharged=ndis,
        checker_cmd='python3-vt /verif/opv/check.py %s --tier %s' % (pid, tier),
        trusted_base=TRUSTED,
        scripts=[dict(name=r['script'], outcome=r['kind'], paths=r['paths'], obligations=len(r['obs']),
                      discharged=sum(o['ok'] for o in r['obs']), seconds=round(r['wall'], 2)) for r in res],
        discharged_by=by, solver_seconds={k: round(v, 2) for k, v in st.items()},
        functions_under_contract=sorted(under), contracts_assumed_at_calls=sorted(used),
        undecided=undecided,
        bounded_replay=dict(label='bounded', evaluations=rep['cases'], nontrivial=rep['nontrivial'], samples=rep['samples'], error=rep['error']) if rep else dict(label='bounded', error=berr),
        evaluations=rep['cases'] if rep else 0, samples=(rep['samples'] if rep else []))
    ev['assumptions'] = ASSUME + sorted(assumed)
    ev['violations'] = 1 if viol is not None else 0
    for r in res:
        ok = sum(o['ok'] for o in r['obs'])
        print('%-9s %-48s %3d/%-3d obligations  %.1fs %s' % (r['kind'] if r['kind'] != 'ok' else ('proved' if ok == len(r['obs']) else 'FAILED'),
              r['script'], ok, len(r['obs']), r['wall'], r['error'] or ''))
    if rep:
        print('replay on the real code (bounded): %d cases, %d failures %s' % (rep['cases'], len(rep['fails']), rep['error'] or ''))
    else:
        print('replay driver not available: %s' % berr)
    rc = 0
    if viol is not None:
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + '.txt')
        with open(rp, 'w') as f:
            f.write('property %s\n' % pid)
            for o in failed[:10]:
                f.write('\nfailed obligation: %s\n  contract: %s\n  in: %s\n  status: %s\n  goal: %s\n' % (o['label'], o['script'], o['where'], o['status'], o['goal']))
                if o.get('model'):
                    f.write('  verifier counterexample: %s\n' % json.dumps(o['model']))
                if o.get('hyps'):
                    f.write('  hypotheses:\n    ' + '\n    '.join(o['hyps']) + '\n')
            if rep and rep['fails']:
                f.write('\nfailing inputs on the real code (replay driver /verif/replay/%s.cpp, %s):\n' % (pid, rep.get('how')))
                for l in rep['fails']:
                    f.write('  %s\n' % l)
            elif rep:
                f.write('\nno failing input found in %d replayed cases\n' % rep['cases'])
        for o in failed[:5]:
            print('failed obligation: [%s] %s (in %s)' % (o['script'], o['label'], o['where']))
        if rep:
            for l in rep['fails'][:5]:
                print('failing input: ' + l)
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, viol))
        rc = 1
    elif undecided:
        for u in undecided[:5]:
            print('UNDECIDED [%s] %s' % (u['script'], u['why']))
        if rep and not rep['error'] and rep['cases']:
            print('bounded stand-in: %d cases on the real code, no failure (not a proof)' % rep['cases'])
        else:
            print('ERROR: neither the proof nor the bounded stand-in could decide')
            rc = 2
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d/%d obligations discharged, proof %.0fs, total %.0fs' % (pid, ndis, nobs, proof_s, ev['wall_s']))
    return rc


if __name__ == '__main__':
    main()
