#!/usr/bin/env python3
"""Entry point of every check.

  check.py run ID [--tier quick|thorough] [--seed N]   exit 0 / 1 + VIOLATION line
  check.py replay FILE [--trace]                       0: reproduced exactly
  check.py setup                                       tools present, all builds work
  check.py list

Builds the simulators from /repo's working tree, runs the seeded search, gates
every violation (same run twice, fresh process replay) and writes the evidence.
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import builds                                        # noqa: E402
from plan import PLAN                                # noqa: E402

REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
REPLAYS = os.path.join(HERE, 'replays')
KNOWN = os.path.join(HERE, 'known_findings.txt')
CAP_QUICK, CAP_THOROUGH = 600, 840


class Broken(Exception):
    """The check itself has a problem: neither verdict."""


def known_classes(pid):
    """Recorded findings that are not repaired: {class: text}"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'known: property=(\S+) class=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def sim_cmd(variant):
    return builds.command(variant, BUILD)


def run_phase(pid, variant, runs, wall, base, seed, tier, jobs=8, stop=1, dup=16, extra=()):
    out = os.path.join(BUILD, f'{pid}-{variant}-{base}-{jobs}.json')
    rdir = os.path.join(REPLAYS, variant)
    os.makedirs(rdir, exist_ok=True)
    if os.path.exists(out):
        os.unlink(out)
    cmd = sim_cmd(variant) + ['run', '--check', pid, '--seed', str(seed), '--runs', str(runs),
                              '--jobs', str(jobs), '--tier', '1' if tier == 'thorough' else '0',
                              '--out', out, '--replays', rdir, '--wall', str(wall), '--dup', str(dup),
                              '--stop', str(stop), '--base', str(base), *extra]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors='replace', timeout=wall + 300)
    if p.returncode or not os.path.exists(out):
        raise Broken(f'{variant} simulator ended with {p.returncode}: {p.stdout[-400:]}')
    r = json.load(open(out))
    r['variant'] = variant
    return r


def gate(pid, variant, v):
    """A violation counts when a fresh process reproduces it from its file."""
    with open(v['replay'], 'a') as f:
        f.write(f'expect variant {variant}\n')
    if not v['same_class']:
        return None
    res = []
    for _ in range(2):
        p = subprocess.run(sim_cmd(variant) + ['replay', v['replay']], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors='replace', timeout=300)
        res.append(p.returncode)
    if res == [0, 0]:
        return 'exact'
    if all(c in (0, 3) for c in res):
        return 'same class, details differ (the code under test reads undefined data)'
    return None


def check(pid, tier, seed):
    t0 = time.time()
    spec = PLAN[pid]
    variants = list(dict.fromkeys(p[0] for p in spec['phases']))
    builds.build(variants, REPO, BUILD)
    t_build = time.time() - t0
    cap = CAP_THOROUGH if tier == 'thorough' else CAP_QUICK
    results, viol, notes = [], None, []
    known = known_classes(pid)
    shares = sum(p[3] for p in spec['phases'])
    base = 0
    for variant, q_runs, q_wall, share in spec['phases']:
        left = cap - (time.time() - t0) - 30
        if tier == 'quick':
            runs, wall = q_runs, min(q_wall, left)
        else:
            runs, wall = 50000000, max(10, (spec.get('thorough_s', 720) - t_build) * share / shares)
            wall = min(wall, left)
        # a large plan is run in slices so that memory stays bounded
        done = 0
        end = time.time() + wall
        while done < runs and time.time() < end - 1:
            n = min(runs - done, 40000)
            r = run_phase(pid, variant, n, max(1, end - time.time()), base, seed, tier,
                          extra=['--ignore', ','.join(known)] if known else [])
            results.append(r)
            if r['errors']:
                raise Broken(f"{variant}: {r['errors']} runs ended in the harness: {r['error_msg']}")
            if 'violation' in r or r['wall_hit']:
                break
            done += n
            base += n
        base = (base // 1000000 + 1) * 1000000
        v = results[-1].get('violation')
        if v:
            how = gate(pid, variant, v)
            if how is None:
                raise Broken(f"{variant}: run {v['run']} ended with {v['class']} ({v['msg']}) but "
                             'does not reproduce: nothing is reported')
            v['reproduction'] = how
            viol = v
            break
    # The same runs on another number of workers give the same histories
    selfcheck = None
    if not viol:
        variant = spec['phases'][0][0]
        n = min(64, spec['phases'][0][1])
        a = run_phase(pid, variant, n, 120, 0, seed, tier, jobs=8, dup=0, stop=0)
        b = run_phase(pid, variant, n, 240, 0, seed, tier, jobs=3, dup=0, stop=0)
        if not a['wall_hit'] and not b['wall_hit']:
            if a['digest'] != b['digest']:
                raise Broken('the same seeds gave other histories with other workers')
            selfcheck = f'{n} runs repeated on 8 and 3 workers, digests equal ({a["digest"]})'
        for r in results:
            if r['dup_mismatch']:
                raise Broken(f"{r['dup_mismatch']} runs differ when repeated")
    counts = {}
    for r in results:
        for k, n in r['counts'].items():
            counts[k] = counts.get(k, 0) + n
    tot = lambda k: sum(r[k] for r in results)
    wall = time.time() - t0
    sim_wall = tot('wall_s')
    dead = [k for k in spec.get('expect', []) if not counts.get(k) and not viol]
    # a fault kind that never fires is a hole in the harness, not in the code
    # under test: fatal while developing, otherwise in the evidence
    if dead and tot('runs') > 2000 and os.environ.get('SIM_STRICT'):
        raise Broken(f'faults or probes that never fired: {dead}')
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': tot('executions'),
            'distinct_nontrivial': tot('nontrivial'),
            'rule': spec['rule'],
            'samples': results[0]['samples'][:2],
            'simulated_runs': tot('runs'),
            'runs_per_hour': int(tot('runs') / max(sim_wall, 1e-3) * 3600),
            'seeds_per_hour': int(tot('distinct_scenarios') / max(sim_wall, 1e-3) * 3600),
            'simulated_time_s': round(tot('simtime_s'), 1),
            'steps': tot('steps'),
            'faults_injected': {k[6:]: v for k, v in sorted(counts.items()) if k.startswith('fault:')},
            'probes': {k[6:]: v for k, v in sorted(counts.items()) if k.startswith('probe:')},
            'other_counts': {k: v for k, v in sorted(counts.items()) if k[:6] not in ('fault:', 'probe:')},
            'distinct_states': sum(max([r['distinct_states'] for r in results if r['variant'] == v])
                                   for v in {r['variant'] for r in results}),
            'expected_but_never_fired': dead,
            'state_measure': spec['states'],
            'determinism': {'repeated': tot('dups'), 'mismatches': tot('dup_mismatch'), 'workers': selfcheck},
            'builds': [{'variant': r['variant'], 'what': builds.describe(r['variant']), 'runs': r['runs'],
                        'wall_s': round(r['wall_s'], 1), 'digest': r['digest'], 'stopped_by_time': r['wall_hit']}
                       for r in results],
            'real_components': spec['real'], 'stub_components': spec['stub'],
        },
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(wall, 1), 'violations': 1 if viol else 0,
    }
    if viol:
        ev['coverage']['violation'] = viol
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for c, text in known.items():
        print(f'KNOWN-FINDING: property={pid} {text}')
    if viol:
        print(f"{pid}: {viol['class']}: {viol['msg']}  (seed {seed}, run {viol['run']}, {viol['ops_before']} -> "
              f"{viol['ops_after']} operations, reproduction {viol['reproduction']})")
        print(f"VIOLATION property={pid} replay={viol['replay']}")
        return 1
    print(f"{pid}: held over {tot('runs')} runs, {tot('simtime_s'):.0f} s simulated, "
          f"{sum(v for k, v in counts.items() if k.startswith('fault:'))} faults, {wall:.0f} s")
    return 0


def replay(path, trace):
    txt = open(path).read()
    m = re.search(r'^expect variant (\S+)', txt, re.M)
    variant = m.group(1) if m else os.path.basename(os.path.dirname(os.path.abspath(path)))
    builds.build([variant], REPO, BUILD)
    env = dict(os.environ)
    if trace:
        env['SIM_MEASURE'] = '1'
    return subprocess.run(sim_cmd(variant) + ['replay', os.path.abspath(path)] + (['--trace'] if trace else []),
                          env=env).returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['run', 'replay', 'setup', 'list'])
    ap.add_argument('what', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--trace', action='store_true')
    a = ap.parse_args()
    try:
        if a.cmd == 'list':
            print('\n'.join(PLAN))
            return 0
        if a.cmd == 'setup':
            for t in ('gcc', 'g++', 'clang', 'clang++', 'objcopy'):
                if not shutil.which(t):
                    raise Broken('no ' + t)
            builds.build(list(dict.fromkeys(p[0] for s in PLAN.values() for p in s['phases'])), REPO, BUILD)
            return 0
        if a.cmd == 'replay':
            return replay(a.what, a.trace)
        return check(a.what, a.tier, a.seed)
    except (Broken, builds.BuildError, subprocess.SubprocessError) as e:
        print(f'ERROR in the check: {e}', file=sys.stderr)
        return 2


if __name__ == '__main__':
    sys.exit(main())
