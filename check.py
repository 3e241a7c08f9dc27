#!/usr/bin/env python3
"""Check of one property: python3 check.py C01   (VERIF_SEED, VERIF_TIER in the environment)

Deciding step: the deductive verifier (pyvc/) generates the proof obligations of the property from
the current source text of /repo and discharges them.  The runtime-contract battery evaluates the
same contracts on the real code with generated inputs: it supplies the replayable counterexamples
and is the (bounded) stand-in for obligations that are out of reach of the verifier.
"""
import json
import os
import re
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
REAL = '/opt/venv/bin/python'
PROVER = 'python3-vt'
EVID = os.path.join(HERE, 'evidence')


def tool_env():
    env = dict(os.environ)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONHASHSEED'] = '0'
    env['VERIF_REPO'] = REPO
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        env[v] = '1'
    env.pop('PYTHONPATH', None)
    return env


def known_findings(prop):
    out = []
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for line in f:
            m = re.match(r'finding: property=(\S+) scenario=(\S+) match=/(.*)/ (.*)$', line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def run_battery(prop, seed, rounds, budget, tag):
    out = os.path.join(EVID, '.%s.%s.%d.json' % (prop, tag, os.getpid()))
    p = subprocess.run(
        [REAL, '-B', '-m', 'battery', 'run', prop, str(seed), str(rounds), str(budget), out],
        cwd=HERE, env=tool_env(), capture_output=True, text=True, timeout=budget * 3 + 200,
    )
    if p.returncode != 0 or not os.path.exists(out):
        print(p.stdout[-2000:], p.stderr[-4000:])
        return None
    rep = json.load(open(out))
    os.remove(out)
    return rep


class Prover:
    """the verifier, running beside the runtime contracts"""

    def __init__(self, prop, tier, seed, limit):
        self.prop, self.limit, self.t0 = prop, limit, time.time()
        self.out = os.path.join(EVID, '.%s.prove.%d.json' % (prop, os.getpid()))
        cmd = [PROVER, '-B', '-m', 'pyvc.prove', prop, '--tier', tier, '--seed', str(seed), '--out', self.out]
        self.log = open(self.out + '.log', 'w+')
        self.p = subprocess.Popen(cmd, cwd=HERE, env=tool_env(), stdout=self.log, stderr=subprocess.STDOUT, start_new_session=True)

    def result(self, wait=None):
        left = self.limit - (time.time() - self.t0)
        err = ''
        try:
            self.p.wait(max(0.1, left if wait is None else min(left, wait)))
        except subprocess.TimeoutExpired:
            err = 'verifier stopped after %d s' % (time.time() - self.t0)
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.p.wait()
        self.log.seek(0)
        text = self.log.read()
        self.log.close()
        os.remove(self.out + '.log')
        rep = None
        if os.path.exists(self.out):
            try:
                rep = json.load(open(self.out))
            except ValueError:
                pass
            os.remove(self.out)
        if rep is None:
            rep = dict(status='no-answer', obligations=[], functions=[], assumptions=[], error=err or text[-3000:])
        rep['cmd'] = 'python3-vt -m pyvc.prove %s' % self.prop
        return rep


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    t0 = time.time()
    os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
    claims = {c['property']: c for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']}
    claim = claims.get(prop, {'level': 'exploration'})
    thorough = tier == 'thorough'

    has_contract = os.path.exists(os.path.join(HERE, 'contracts', prop.lower() + '.py'))
    job = Prover(prop, tier, seed, 700 if thorough else 420) if has_contract else None
    rounds, budget = (4000, 120) if thorough else (120, 15) if has_contract else (400, 40)
    bat = run_battery(prop, seed, rounds, budget, 'bat')
    if bat is None:
        if job:
            job.result(0)
        print('the runtime contracts of %s could not be executed' % prop)
        return 3
    # with a failing input at hand the verifier gets a little more time to name the obligation that fails
    prover = job.result(45 if bat['failures'] else None) if job else None
    if prover is not None and prover['status'] != 'proved' and not thorough and not bat['failures']:
        rounds, budget = 400, 40
        more = run_battery(prop, seed, rounds, budget, 'bat')
        bat = more or bat

    # violations with a failing input
    viol, known = [], []
    kf = known_findings(prop)
    for f in bat['failures']:
        hit = [t for s, rx, t in kf if s == f['scenario'] and re.search(rx, f['message'])]
        (known if hit else viol).append((f, hit))
    refuted = [] if prover is None else [o for o in prover['obligations'] if o['result'] == 'refuted']
    if not viol and refuted:
        # try harder to find a failing input for the failed obligation
        more = run_battery(prop, seed + 7919, 3000, 60, 'more')
        if more:
            bat['evaluations'] += more['evaluations']
            bat['distinct_nontrivial'] += more['distinct_nontrivial']
            for f in more['failures']:
                if not [t for s, rx, t in kf if s == f['scenario'] and re.search(rx, f['message'])]:
                    viol.append((f, []))

    for f, hit in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]))

    lines = []
    if viol:
        f = viol[0][0]
        path = os.path.join('evidence', 'replays', '%s-%s-%d-%d.json' % (prop, f['scenario'], f['seed'], f['k']))
        with open(os.path.join(HERE, path), 'w') as fh:
            json.dump(
                dict(
                    property=prop, kind='failing-input', message=f['message'], case=f, failed_obligations=refuted,
                    how_to_replay='cd /verif && /opt/venv/bin/python -B -m battery replay ' + path,
                ),
                fh, indent=1, default=repr,
            )
        print('%s: %s' % (prop, f['message'][:600]))
        if refuted:
            print('failed obligation: %s' % refuted[0]['name'])
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
    elif refuted:
        o = refuted[0]
        path = os.path.join('evidence', 'replays', '%s-obligation.json' % prop)
        with open(os.path.join(HERE, path), 'w') as fh:
            json.dump(dict(property=prop, kind='failed-obligation', obligation=o, failed_obligations=refuted, verifier=prover['cmd']), fh, indent=1, default=repr)
        print('%s: failed obligation %s' % (prop, o['name']))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))

    # evidence
    cov = {}
    assumptions = []
    level = 'exploration'
    if prover is not None:
        obs = prover['obligations']
        cov.update(
            obligations=len(obs), discharged=sum(o['result'] == 'proved' for o in obs), checker_cmd=prover['cmd'],
            trusted_base=prover.get('trusted_base', []), functions_under_contract=prover.get('functions', []),
            back_ends=prover.get('back_ends', {}), solver_time_s=prover.get('solver_time_s', 0.0),
            paths=prover.get('paths', 0), verifier_status=prover['status'], vacuity=prover.get('vacuity', {}),
            not_discharged=[{k: str(o.get(k))[:400] for k in ('name', 'result', 'why')} for o in obs if o['result'] != 'proved'],
            bounded_parts=prover.get('bounded', []),
            verifier_error=prover.get('error', ''),
        )
        assumptions = prover.get('assumptions', [])
        if prover['status'] == 'proved':
            level = claim['level']
        elif claim['level'] == 'proof':
            assumptions = assumptions + [
                'NOT PROVED ON THIS RUN (%s): the verdict rests on the bounded runtime-contract check only' % prover['status']
            ]
    cov.update(
        evaluations=bat['evaluations'], distinct_nontrivial=bat['distinct_nontrivial'],
        rule='runtime contracts on the real code: inputs enumerated from (scenario, k, seed), see battery/; non-trivial: the '
        'postcondition applied to at least one day/value of the case and the input differs from all earlier ones',
        samples=bat['samples'], by_scenario=bat['by_scenario'],
        bounded='runtime contracts: %d rounds of generated inputs within %d s (seed %d); never counted as proved' % (bat.get('rounds', 0) or 0, budget, seed),
    )
    ev = dict(
        property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
        wall_s=round(time.time() - t0, 3), violations=len(lines),
    )
    with open(os.path.join(EVID, prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=repr)
    for line in lines:
        print(line)
    if not lines:
        if prover is None:
            print('%s held: bounded runtime contracts, %d cases' % (prop, bat['evaluations']))
        else:
            print('%s held: %s, %d/%d obligations, %d runtime cases' % (prop, prover['status'], cov['discharged'], cov['obligations'], bat['evaluations']))
    return 1 if lines else 0


if __name__ == '__main__':
    sys.exit(main())
