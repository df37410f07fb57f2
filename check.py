#!/opt/venv/bin/python
"""check.py <property>: decide one property on /repo's current tree.

1. every contract and lemma the property rests on is verified from the current source (deductive; unbounded);
2. in parallel the real code is run against independent oracles (used to turn a failed obligation into a failing input);
3. only if an obligation is not discharged and no failing input is found: the same contracts at small concrete depths.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
SHARDS = 3
sys.path.insert(0, VERIF)
from contracts.props import PROPS, TRUSTED, ASSUME   # noqa: E402  (plain data)


def env(**kw):
    e = dict(os.environ)
    e.update(JAX_PLATFORMS='cpu', TF_CPP_MIN_LOG_LEVEL='3', PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=REPO,
             PYTHONPATH=os.path.join(REPO, 'src') + ':' + VERIF, XLA_FLAGS='--xla_force_host_platform_device_count=1',
             OMP_NUM_THREADS='1', PYTHONHASHSEED='0')
    e.update({k: str(v) for k, v in kw.items()})
    return e


GRACE = 40


def KNOWN():
    return [l.strip() for l in open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')) if l.startswith('finding:')]


class Pool:
    def __init__(self, n, tmp):
        self.n, self.tmp, self.q, self.run, self.res = n, tmp, [], {}, {}

    def add(self, key, cmd, out, limit, **e):
        self.q.append((key, cmd, out, limit, e))

    def step(self):
        while self.q and len(self.run) < self.n:
            key, cmd, out, limit, e = self.q.pop(0)
            err = open(out + '.err', 'w')
            p = subprocess.Popen(cmd, cwd=VERIF, env=env(**e), stdout=err, stderr=err)
            self.run[key] = (p, out, time.time() + limit, time.time())
        for key, (p, out, dl, t0) in list(self.run.items()):
            if p.poll() is not None or time.time() > dl:
                to = p.poll() is None
                if to:
                    p.kill()
                    p.wait()
                del self.run[key]
                try:
                    with open(out) as f:
                        r = json.load(f)
                except Exception:
                    tail = open(out + '.err').read()[-600:]
                    r = dict(unit=str(key), obligations=[], error='timeout' if to else f'process ended with {p.returncode}: {tail}', secs=round(time.time() - t0, 1))
                self.res[key] = r

    def wait(self, until=lambda: False):
        while self.q or self.run:
            self.step()
            if until():
                break
            time.sleep(0.05)

    def hurry(self, secs):
        self.q = [(k, cmd, out, secs, e) for k, cmd, out, _, e in self.q]
        self.run = {k: (p, out, min(dl, time.time() + secs), t0) for k, (p, out, dl, t0) in self.run.items()}

    def kill(self):
        self.q = []
        for p, *_ in self.run.values():
            p.kill()
            p.wait()
        self.run = {}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid = a.prop
    spec = PROPS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f'dv_{pid}_')
    try:
        rc = decide(pid, spec, a, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def decide(pid, spec, a, seed, tmp, t0):
    thorough = a.tier == 'thorough'
    pool = Pool(8, tmp)
    units = list(spec['units'])
    budget = (240 if thorough else 25) if 'budget' not in spec else spec['budget'] * (4 if thorough else 1)
    if spec.get('replay', True):
        for q in range(SHARDS):
            out = os.path.join(tmp, f'replay{q}.json')
            pool.add(f'replay{q}', [PY, '-m', 'replay.run', pid, '--seed', str(seed), '--budget', str(budget), '--tier', a.tier, '--shard', f'{q}/{SHARDS}', '--out', out], out, budget + 240)
    for i, u in enumerate(units):
        out = os.path.join(tmp, f'u{i}.json')
        pool.add(u, [PY, '-m', 'dv.worker', u, out], out, 600 if thorough else 420)
    cut = []

    def settled():
        # a failing input decides the verdict: the proofs get a little more time to name the obligations that fail with it
        if not cut and not KNOWN() and any(r.get('fail') for k, r in pool.res.items() if str(k).startswith('replay')):
            cut.append(1)
            pool.hurry(GRACE)
    pool.wait(settled)
    rep = dict(evaluations=0, distinct=0, fail=None, samples=[], error=None, skipped=[])
    for q in range(SHARDS if spec.get('replay', True) else 0):
        r = pool.res[f'replay{q}']
        for k in ('evaluations', 'distinct'):
            rep[k] += r.get(k, 0)
        for k in ('samples', 'skipped'):
            rep[k] += r.get(k, [])
        rep['fail'] = rep['fail'] or r.get('fail')
        rep['error'] = rep['error'] or r.get('error')
    obs, failed, errors = [], [], []
    per_unit = []
    for u in units:
        r = pool.res[u]
        obs += r['obligations']
        bad = [o for o in r['obligations'] if o['status'] != 'proved']
        failed += bad
        if r.get('error'):
            errors.append(dict(unit=u, error=r['error'], where=r.get('where')))
        per_unit.append(dict(unit=u, obligations=len(r['obligations']), discharged=len(r['obligations']) - len(bad), seconds=r.get('secs'), error=r.get('error')))
    proved = not failed and not errors and len(obs) > 0
    bounded = None
    verdict, lines = 0, []
    replay_path = os.path.join(VERIF, 'evidence', f'{pid}.replay.json')
    os.makedirs(os.path.dirname(replay_path), exist_ok=True)
    if os.path.exists(replay_path):
        os.remove(replay_path)
    known = KNOWN()
    fail = rep.get('fail')
    if fail:
        for k in known:
            if f'property={pid} ' in k and f'key={fail.get("key")} ' in k + ' ':
                print(f'KNOWN-FINDING: property={pid} {k.split(" ", 3)[-1]}')
                fail = None
                break
    if fail:
        with open(replay_path, 'w') as f:
            json.dump(dict(property=pid, failing_input=fail, failed_obligations=failed[:20], unreadable=errors,
                           reproduce=f'cd {VERIF} && PYTHONPATH={REPO}/src {PY} -m replay.run {pid} --seed {seed} --only {fail.get("case")}'), f, indent=1, default=str)
        lines.append(f'VIOLATION property={pid} replay={replay_path}')
        verdict = 1
    elif not proved:
        # depth-bounded re-verification of the same contracts
        p2 = Pool(8, tmp)
        depths = spec.get('depths', (1, 2, 3))
        bad_units = [u for u in units if pool.res[u].get('error') or any(o['status'] != 'proved' for o in pool.res[u]['obligations'])]
        left = max(60, 840 - (time.time() - t0))
        for d in depths:
            for i, u in enumerate(bad_units):
                out = os.path.join(tmp, f'b{d}_{i}.json')
                p2.add((d, u), [PY, '-m', 'dv.worker', u, out], out, min(200, left), DV_DEPTH=d, DV_TIMEOUT=10)
        p2.wait(lambda: time.time() - t0 > 840)
        p2.kill()
        bounded = dict(depths=list(depths), units=[])
        refuted = []
        for (d, u), r in p2.res.items():
            badb = [o for o in r['obligations'] if o['status'] != 'proved']
            ref = [o for o in badb if o['status'] == 'refuted']
            bounded['units'].append(dict(depth=d, unit=u, obligations=len(r['obligations']), not_discharged=len(badb), error=r.get('error')))
            if ref and (r.get('error') or 'timeout') == 'timeout':
                refuted += [dict(o, depth=d) for o in ref]
        if refuted:
            with open(replay_path, 'w') as f:
                json.dump(dict(property=pid, failed_obligations=failed[:20], refuted_at_concrete_depth=refuted[:20], unreadable=errors,
                               note='the verifier refutes these obligations; no concrete failing input was found by running the code'), f, indent=1, default=str)
            lines.append(f'VIOLATION property={pid} replay={replay_path} no-failing-input-found')
            verdict = 1
    nd = sum(1 for o in obs if o['status'] == 'proved')
    level = 'proof' if proved else 'exploration'
    by = {}
    for o in obs:
        if o['status'] == 'proved':
            by[o['backend'] or 'trivial'] = by.get(o['backend'] or 'trivial', 0) + 1
    cov = dict(obligations=len(obs), discharged=nd, checker_cmd=f'{PY} check.py {pid}', trusted_base=TRUSTED,
               functions_under_contract=sorted({u.partition('@')[0] for u in units}), per_unit=per_unit, discharged_by=by,
               solver_seconds=round(sum(o['secs'] for o in obs), 2),
               slowest=sorted(({'fn': o['fn'], 'label': o['label'], 'secs': o['secs']} for o in obs), key=lambda o: -o['secs'])[:5],
               runtime_cross_check=dict(evaluations=rep.get('evaluations', 0), distinct=rep.get('distinct', 0), skipped=rep.get('skipped', [])[:10], error=rep.get('error'),
                                        rule='real code run on generated inputs (sizes at the integer-type boundaries included) against independent numpy oracles; used only to find failing inputs'),
               bounded_parts=spec.get('bounded', []))
    cov['evaluations'] = rep.get('evaluations', 0)
    cov['distinct_nontrivial'] = rep.get('distinct', 0)
    cov['rule'] = 'runtime cross-check cases; distinct by generated description'
    cov['samples'] = rep.get('samples', [])[:5] or [str(o['fn']) + ': ' + o['label'] for o in obs[:5]]
    if not proved:
        cov['not_discharged'] = [dict(fn=o['fn'], label=o['label'], status=o['status']) for o in failed[:30]]
        cov['not_read'] = errors
        cov['bounded_fallback'] = bounded
        cov['explanation'] = 'not every obligation was discharged: this run is not a proof'
    ev = dict(property=pid, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed, level=level, coverage=cov,
              assumptions=ASSUME + spec.get('assume', []), wall_s=round(time.time() - t0, 2), violations=verdict)
    evp = os.path.join(VERIF, 'evidence', f'{pid}.json')
    with open(evp + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(evp + '.tmp', evp)
    print(f'{pid}: {nd}/{len(obs)} obligations discharged from {len(units)} functions/lemmas ({", ".join(f"{k} {v}" for k, v in by.items())}); '
          f'{rep.get("evaluations", 0)} runs of the real code; {ev["wall_s"]} s')
    for e in errors:
        print(f'  not read: {e["unit"]}: {e["error"][:300]} {e.get("where") if a.v else ""}')
    for o in failed[:10]:
        print(f'  not discharged: {o["fn"]}: {o["label"]} ({o["status"]})')
    if rep.get('error'):
        print('  runtime cross-check:', str(rep['error'])[:300])
    if rep.get('skipped') and a.v:
        print('  runtime cross-check skipped:', rep['skipped'][:5])
    if fail:
        print('  failing input:', json.dumps(fail, default=str)[:600])
    for l in lines:
        print(l)
    sys.stdout.flush()
    return verdict


if __name__ == '__main__':
    main()
