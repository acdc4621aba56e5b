#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]

Builds the extractor, extracts the MIR of /repo's current working tree, generates the obligations of
every contract that belongs to the property and discharges them.  See DESIGN.md.
"""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('ORCHARD_REPO', '/repo')
BUILD = os.path.join(HERE, '.build')
sys.path.insert(0, os.path.join(HERE, 'vc'))
sys.setrecursionlimit(20000)
T0 = time.time()


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


def die(msg):
    print('ERROR', msg, flush=True)
    sys.exit(2)


def env_():
    e = dict(os.environ)
    e['HOME'] = '/root'
    e['PATH'] = '/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:' + e.get('PATH', '')
    for k in ('RUSTFLAGS', 'RUSTC', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTUP_TOOLCHAIN='1.70.0')
    return e


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def extract():
    """MIR of the current tree as JSON; returns its path."""
    os.makedirs(BUILD, exist_ok=True)
    nightly = os.path.join('/root/.rustup/toolchains', 'nightly-x86_64-unknown-linux-gnu')
    drv = os.path.join(BUILD, 'mirdrv')
    src = os.path.join(HERE, 'driver/main.rs')
    if not os.path.exists(drv) or os.path.getmtime(drv) < os.path.getmtime(src):
        r = run([nightly + '/bin/rustc', '--edition', '2021', '-O', '-C', 'link-arg=-Wl,-rpath,' + nightly + '/lib', src, '-o', drv], env=env_())
        if r.returncode:
            die('cannot build the extractor:\n' + r.stdout[-4000:])
    out = os.path.join(BUILD, 'orchard-%d.json' % os.getpid())
    if os.path.exists(out):
        os.remove(out)
    tgt = os.path.join(BUILD, 'mir')
    fp = os.path.join(tgt, 'debug/.fingerprint')
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith('orchard-'):
                shutil.rmtree(os.path.join(fp, d))
    e = env_()
    e.update(RUSTC=nightly + '/bin/rustc', RUSTC_WORKSPACE_WRAPPER=drv, ORCHARD_MIR_OUT=out, CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL='0')
    r = run(['cargo', 'check', '--lib', '--offline'], cwd=REPO, env=e)
    if r.returncode or not os.path.exists(out):
        die('the crate does not build:\n' + r.stdout[-4000:])
    return out


def dumper(d):
    """Keeps every query z3 answered with unsat, for the second solver."""
    os.makedirs(d, exist_ok=True)

    def dump(s):
        t = '(set-logic ALL)\n' + s.to_smt2()
        f = os.path.join(d, hashlib.sha256(t.encode()).hexdigest()[:24] + '.smt2')
        if not os.path.exists(f):
            with open(f, 'w') as o:
                o.write(t)
    return dump


def worker(names, mirdoc, q, drop, deadline, dump=None):
    import prove
    import models as M
    import term as tm
    ex = None
    for n in iter(names.get, None):
        try:
            if time.time() > deadline:
                r = prove.Result(n)
                r.status, r.detail = 'unknown', dict(why='time budget of the check')
            else:
                ex = prove.Ex(mirdoc, M, prove.REG)
                ex.sol.dump = dump
                if tm.TRACE is not None:
                    tm.TRACE.clear()
                r = prove.verify(ex, prove.REG[n], drop)
        except BaseException as e:
            r = prove.Result(n)
            r.status, r.detail = 'unsupported', dict(why='internal: %r' % (e,))
        d = r.js()
        d['used'] = r.used
        d['definite'] = getattr(r, 'definite', False)
        if tm.TRACE is not None and ex is not None:
            import selfcheck
            d['rewrites'] = selfcheck.check(dict(tm.TRACE), ex.sol.z, random.Random(n), 30)
        q.put(d)
    q.put(None)


def verify_all(prop, mir, budget, dump=None):
    import prove
    import run as runmod
    doc = json.load(open(mir))
    prove.load_types(doc)
    runmod.load_specs()
    names = [n for n, c in prove.REG.items() if prop in c.props]
    if not names:
        die('no contract belongs to ' + prop)
    names.sort(key=lambda n: -prove.REG[n].cost)
    ctx = mp.get_context('fork')
    work, q = ctx.Queue(), ctx.Queue()
    depth = {n: 0 for n in names}
    for n in names:
        work.put(n)
    ps = [ctx.Process(target=worker, args=(work, doc, q, (), time.time() + budget, dump), daemon=True) for _ in range(8)]
    for p in ps:
        p.start()
    # every contract a proof uses at a call is itself discharged here: first the property's own, then theirs
    res, order = {}, list(names)
    end = time.time() + budget + 60
    while len(res) < len(order) and time.time() < end:
        try:
            d = q.get(timeout=2)
        except Exception:
            if not any(p.is_alive() for p in ps) and q.empty():
                break
            continue
        res[d['function']] = d
        log('%-11s %4d %6.2fs %s' % (d['status'], d['obligations'], d['seconds'], d['function']))
        for n in sorted((d['used'] or {}).get('contracts', ())):
            if n in prove.REG and n not in depth:
                depth[n] = depth[d['function']] + 1
                order.append(n)
                work.put(n)
    for p in ps:
        p.kill()
    for n in order:
        if n not in res:
            res[n] = dict(function=n, status='unknown', obligations=0, seconds=0, queries=0, detail=dict(why='the prover process ended'), used={}, definite=False)
    # distance from the property's own contracts (the order in which results came does not matter)
    depth = {n: 0 for n in names}
    front = list(names)
    while front:
        nxt = []
        for f in front:
            for n in sorted((res[f]['used'] or {}).get('contracts', ())):
                if n in res and n not in depth:
                    depth[n] = depth[f] + 1
                    nxt.append(n)
        front = nxt
    for n in order:
        res[n]['depth'] = depth.get(n, 9)
    return [res[n] for n in sorted(order, key=lambda n: (res[n]['depth'], n))], prove.REG


def calls(body):
    out, todo = set(), [body]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if x.get('c') == 'fn' and 'f' in x:
                out.add(x['f'].get('r') or x['f']['p'])
            todo += x.values()
        elif isinstance(x, list):
            todo += x
    return out


def absorbed(broken, mir, budget):
    """Whether the crate's public functions still meet their contracts although the private functions `broken`
    do not meet theirs: everything that calls them is verified again with their bodies in place of their contracts.
    Any doubt is a no, so this only ever withdraws an alarm about how the work is divided between private functions."""
    import prove
    doc = json.load(open(mir))
    root = lambda p: p.split('::{closure')[0]
    graph = {}
    for f in doc['fns']:
        if f['local'] and 'b' in f:
            graph.setdefault(root(f['p']), set()).update(calls(f['b']))
    broken = set(broken)
    end = time.time() + budget
    while time.time() < end:
        if any(b.startswith('<') or prove.REG[b].public for b in broken):
            return False
        names = [n for n in prove.REG if n not in broken]
        ctx = mp.get_context('fork')
        work, q = ctx.Queue(), ctx.Queue()
        for n in sorted(names, key=lambda n: -prove.REG[n].cost):
            work.put(n)
        for _ in range(8):
            work.put(None)
        ps = [ctx.Process(target=worker, args=(work, doc, q, broken, end), daemon=True) for _ in range(8)]
        for p in ps:
            p.start()
        res, left = [], 8
        while left and time.time() < end + 20:
            try:
                d = q.get(timeout=2)
            except Exception:
                if not any(p.is_alive() for p in ps) and q.empty():
                    break
                continue
            if d is None:
                left -= 1
            else:
                res.append(d)
        for p in ps:
            p.kill()
        if len(res) < len(names):
            return False
        # functions with the broken bodies in place of the contracts, directly or through others inlined with them
        touched = [d for d in res if set((d['used'] or {}).get('inlined', ())) & broken]
        seen = set().union(*[{root(x) for x in d['used']['inlined']} | {d['function']} for d in touched]) if touched else set()
        for g, cs in graph.items():
            if cs & broken and g not in seen and g not in broken:
                log('called outside the contracts by ' + g)
                return False
        more = set()
        for d in touched:
            if d['status'] == 'proved':
                continue
            if prove.REG[d['function']].public or d['status'] != 'failed':
                log('with the bodies in place: %s %s' % (d['status'], d['function']))
                return False
            more.add(d['function'])
        if not more:
            return bool(touched)
        broken |= more
    return False


def replay(prop, seed, budget, outfile):
    """Concrete harness: (ran, cases, failure text or None, note)."""
    d = os.path.join(HERE, 'replay')
    if not os.path.exists(os.path.join(d, 'Cargo.toml')):
        return dict(ran=False, note='no harness')
    tgt = os.path.join(BUILD, 'replay')
    src = os.path.join(BUILD, 'replay-src')
    shutil.rmtree(src, ignore_errors=True)
    shutil.copytree(d, src)
    ct = os.path.join(src, 'Cargo.toml')
    s = open(ct).read().replace('/repo', REPO)
    open(ct, 'w').write(s)
    e = env_()
    e.update(CARGO_TARGET_DIR=tgt)
    fp = os.path.join(tgt, 'debug/.fingerprint')
    if os.path.isdir(fp):
        for x in os.listdir(fp):
            if x.startswith(('orchard-', 'replay-')):
                shutil.rmtree(os.path.join(fp, x))
    t = time.time()
    r = run(['cargo', 'build', '--offline', '--locked'], cwd=src, env=e)
    if r.returncode:
        return dict(ran=False, note='the replay harness does not build:\n' + r.stdout[-3000:])
    log('replay harness built in %.0fs' % (time.time() - t))
    e['RAYON_NUM_THREADS'] = '8'
    try:
        p = subprocess.run([os.path.join(tgt, 'debug/replay'), prop, str(seed), str(budget)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, timeout=budget * 2 + 120)
    except subprocess.TimeoutExpired:
        return dict(ran=False, note='the replay harness ran out of time')
    o = dict(ran=p.returncode in (0, 1), cases=0, distinct=0, groups=[], samples=[], failure=None, note='')
    for ln in p.stdout.splitlines():
        if ln.startswith('CASES '):
            _, a = ln.split(None, 1)
            o['cases'] = int(a)
        elif ln.startswith('GROUP '):
            o['groups'].append(ln[6:])
        elif ln.startswith('SAMPLE '):
            o['samples'].append(ln[7:])
    if p.returncode == 1:
        fails = [ln for ln in p.stdout.splitlines() if ln.startswith('FAIL ')]
        o['failure'] = '\n'.join(fails) or p.stdout[-3000:]
    elif p.returncode != 0:
        o['note'] = 'the replay harness stopped with %d: %s' % (p.returncode, (p.stderr or '')[-1500:])
    return o


def cross_check(d, budget):
    """The queries z3 refuted, put to cvc5."""
    from concurrent.futures import ThreadPoolExecutor
    files = sorted(os.listdir(d)) if os.path.isdir(d) else []
    end = time.time() + budget

    def one(f):
        if time.time() > end:
            return 'not run', f
        try:
            p = subprocess.run(['cvc5', '--quiet', '--lang=smt2', '--tlimit=10000', os.path.join(d, f)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=30)
        except (subprocess.TimeoutExpired, OSError):
            return 'unknown', f
        w = p.stdout.split()
        return (w[0] if w and w[0] in ('sat', 'unsat') else 'unknown'), f
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, files))
    n = lambda k: sum(1 for r, _ in rs if r == k)
    return dict(back_end='cvc5', queries=len(rs), confirmed=n('unsat'), unknown=n('unknown'), not_run=n('not run'), disagreeing=[f for r, f in rs if r == 'sat'])


def lemma_schemas():
    """The lemmas about loops of vc/lemmas.py and vc/exec.py, proved once and for all in lean/Lemmas.lean."""
    f = os.path.join(HERE, 'lean', 'Lemmas.lean')
    try:
        p = subprocess.run(['lean', f], cwd=os.path.dirname(f), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    except (subprocess.TimeoutExpired, OSError) as e:
        return dict(back_end='Lean', checked=False, note=str(e)[:200])
    names = re.findall(r"'Loops\.(\w+)' (?:does not depend on any axioms|depends on axioms: \[(?:propext|Classical\.choice|Quot\.sound|, |\n)*\])", p.stdout)
    stated = re.findall(r'^theorem (\w+)', open(f).read(), re.M)
    bad = p.returncode != 0 or 'sorry' in p.stdout or 'error' in p.stdout or set(names) != set(stated)
    return dict(back_end='Lean', checked=True, file='lean/Lemmas.lean', theorems=len(names), failed=p.stdout[-1500:] if bad else None)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--mir')
    ap.add_argument('--no-replay', action='store_true')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mir = a.mir or extract()
    log('extracted')
    if tier == 'thorough':
        os.environ['VC_TRACE'] = '1'    # vc/selfcheck.py
    import values as vals
    import prove
    prove.SCALE = 1 if tier == 'quick' else 6
    smt = os.path.join(BUILD, 'smt-%d' % os.getpid())
    shutil.rmtree(smt, ignore_errors=True)
    results, REG = verify_all(prop, mir, 300 if tier == 'quick' else 2400, dumper(smt) if tier == 'thorough' else None)
    second = schemas = None
    if tier == 'thorough':
        second = cross_check(smt, 400)
        schemas = lemma_schemas()
        log('cvc5', {k: v for k, v in second.items() if k != 'disagreeing'}, second['disagreeing'][:3])
    known = []
    kf = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(kf):
        for ln in open(kf):
            if ln.startswith('finding: property=%s ' % prop):
                known.append(ln.strip())

    proved = [r for r in results if r['status'] == 'proved']
    bad = [r for r in results if r['status'] in ('failed', 'unknown', 'unsupported')]
    missing = [r for r in results if r['status'] == 'missing']
    lost_public = [r for r in missing if REG[r['function']].public and r['depth'] == 0]
    skipped = [r for r in missing if not (REG[r['function']].public and r['depth'] == 0)]
    # a contract the property's own functions call directly counts as the property's; one further away is
    # discharged and reported, but its failure alone does not say that this property is broken
    definite = [r for r in bad if r['status'] == 'failed' and r['definite'] and r['depth'] <= 1]
    moved = []
    private = {r['function'] for r in definite if not REG[r['function']].public}
    if private and all(r['function'] in private or set((r['used'] or {}).get('contracts', ())) & private for r in definite) and absorbed(private, mir, 200):
        moved, definite = definite, []

    rep = None
    if (bad or skipped or lost_public or tier == 'thorough') and not a.no_replay:
        rep = replay(prop, seed, 60 if tier == 'quick' else 300, None)
        if rep.get('note'):
            log(rep['note'])
        log('replay', {k: v for k, v in rep.items() if k != 'samples'})

    ev = dict(property=prop, tier=tier, seed=seed, level='proof')
    contracts_used, inlined, assumed, unint = set(), set(), set(), set()
    for r in results:
        u = r['used'] or {}
        contracts_used |= set(u.get('contracts', ()))
        inlined |= set(u.get('inlined', ()))
        assumed |= set(u.get('assumed', ()))
        unint |= set(u.get('uninterpreted', ()))
    mine = {r['function'] for r in results}
    nob = sum(r['obligations'] for r in results)
    ndis = sum(r['obligations'] for r in proved)
    elsewhere = sorted(n + ' [' + ','.join(sorted(REG[n].props)) + ']' for n in contracts_used - mine if n in REG)
    ev['coverage'] = dict(
        obligations=nob + len(bad), discharged=ndis,
        checker_cmd='python3-vt check.py %s --tier %s' % (prop, tier),
        functions_under_contract=[dict(function=r['function'], status=r['status'], own=r['depth'] == 0, calls_from_own=r['depth'], obligations=r['obligations'], solver_queries=r['queries'], seconds=r['seconds'], note=REG[r['function']].note) for r in results],
        functions_proved=len(proved),
        bodies_inlined=sorted(inlined),
        back_ends='vc generator of /verif/vc; obligations closed by its term rewriter (syntactic identity after normalisation) or by z3 %s (in process)' % z3v(),
        solver_queries=sum(r['queries'] for r in results),
        prover_seconds=round(sum(r['seconds'] for r in results), 2),
        bounded_stand_ins=[r['function'] for r in bad],
        contracts_without_function=[r['function'] for r in skipped + lost_public],
        private_contracts_changed=[r['function'] for r in moved],
        trusted_base=['rustc (MIR construction), the extractor /verif/driver and the VC generator /verif/vc', 'z3 %s' % z3v()]
        + ['assumed contract: ' + x for x in sorted(assumed)] + ['uninterpreted (nothing assumed but determinism): ' + x for x in sorted(unint)])
    if second:
        ev['coverage']['second_solver'] = second
        ev['coverage']['lemma_schemas'] = schemas
    rw = [r['rewrites'] for r in results if r.get('rewrites')]
    if rw:
        ev['coverage']['rewriter_steps_rechecked'] = {k: sum(x.get(k, 0) for x in rw) for k in ('z3', 'evaluated', 'unchanged', 'unknown', 'not_run')}
    wrong = [(r['function'], w) for r in results if r.get('rewrites') for w in r['rewrites']['wrong']]
    if rep is not None and rep.get('ran'):
        ev['coverage']['replay'] = dict(cases=rep['cases'], groups=rep['groups'], samples=rep['samples'][:5], label='bounded: concrete inputs against the real crate, never counted as proved')
    ev['assumptions'] = ['contract used but not discharged in this run: ' + x for x in elsewhere] + [
        'hash functions, group and field operations of the dependencies are mathematical functions with the algebraic laws stated in vc/models.py',
        'machine integers are modelled exactly (bit vectors with overflow obligations); field elements exactly modulo their prime; allocation never fails',
        'panics inside dependencies are considered only where vc/models.py states them']
    ev['wall_s'] = round(time.time() - T0, 2)
    violations = 0
    replay_path = None
    concrete = rep is not None and rep.get('failure')
    if concrete or definite:
        violations = max(1, len(definite))
        rd = os.path.join(HERE, 'evidence')
        os.makedirs(rd, exist_ok=True)
        replay_path = os.path.join(rd, '%s.replay.txt' % prop)
        with open(replay_path, 'w') as f:
            if concrete:
                f.write('Failing inputs against the real code (re-run: check.py %s, VERIF_SEED=%d):\n%s\n\n' % (prop, seed, rep['failure']))
            for r in bad:
                f.write('obligation not discharged: %s (%s)\n%s\n\n' % (r['function'], r['status'], json.dumps(r['detail'], indent=1)))
    ev['violations'] = violations
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if not a.mir:
        os.remove(mir)
    if second and second['disagreeing']:
        die('z3 and cvc5 disagree: %s/%s' % (smt, second['disagreeing'][0]))
    if schemas and schemas.get('failed'):
        die('lean/Lemmas.lean is not accepted: ' + schemas['failed'])
    shutil.rmtree(smt, ignore_errors=True)
    if wrong:
        die('a step of the rewriter does not hold, in the proof of %s: %s' % wrong[0])
    for r in bad + missing:
        print('NOTE %s %s %s' % (r['status'], r['function'], json.dumps(r['detail'])[:1500]))
    print('%s: %d of %d contracts proved, %d obligations discharged, %.0fs' % (prop, len(proved), len(results), ndis, time.time() - T0))
    if concrete:
        print('VIOLATION property=%s replay=%s' % (prop, replay_path), flush=True)
        sys.exit(1)
    if definite:
        for r in definite:
            print('FAILED OBLIGATION %s' % (r['detail'] or {}).get('obligation', r['function']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay_path), flush=True)
        sys.exit(1)
    if lost_public and (rep is None or not rep.get('ran') or not rep.get('cases')):
        die('lost anchor: ' + ', '.join(r['function'] for r in lost_public))
    if not proved:
        die('nothing could be proved')
    if (bad or skipped) and (rep is None or not rep.get('ran') or not rep.get('cases')):
        if bad:
            die('not decided: ' + ', '.join(r['function'] for r in bad))
    for k in known:
        print('KNOWN-FINDING: ' + k.split(': ', 1)[1])
    print('OK ' + prop)
    sys.exit(0)


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    main()
