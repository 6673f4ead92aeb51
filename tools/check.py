#!/usr/bin/env python3
"""Check one property by seeded simulation.

usage: check.py PROPERTY [quick|thorough] [--seed N] [--runs-scale X]
Builds the simulator from /repo's working tree, explores seeds, gates and minimises any violation, writes evidence.
exit 0: the property held on everything explored; exit 1: VIOLATION line printed; exit 2/3: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, time, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from plan import PLAN, PROPS

VERIF = B.VERIF
JOBS = 8


def sh(cmd, timeout=300):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)


def parse_trace(path):
    head, params, faults, choices = [], [], [], []
    with open(path) as f:
        for l in f:
            l = l.rstrip('\n')
            k = l.split(' ', 1)[0]
            (params if k == 'p' else faults if k == 'f' else choices if k in ('s', 'c') else head).append(l)
    return head, params, faults, choices


def write_trace(path, head, params, faults, choices):
    with open(path, 'w') as f:
        f.write('\n'.join(head + params + faults + choices) + '\n')


class Replayer:
    def __init__(self, exe, tmp):
        self.exe, self.tmp, self.n = exe, tmp, 0

    def run(self, path, extra=()):
        r = sh([self.exe, 'replay', path, '--alarm', '60'] + list(extra))
        self.n += 1
        try:
            return json.loads(r.stdout.strip().split('\n')[-1])
        except Exception:
            return {'outcome': 4, 'signature': 'no output', 'hash': '', 'message': r.stderr[-300:]}

    def try_(self, head, params, faults, choices, sig):
        p = '%s/try%d.trace' % (self.tmp, self.n % 8)
        write_trace(p, head, params, faults, choices)
        r = self.run(p)
        return r['outcome'] == 2 and r['signature'] == sig


def ddmin(items, test, deadline):
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        size = max(1, len(items) // n)
        some = False
        i = 0
        while i < len(items) and time.time() < deadline:
            cand = items[:i] + items[i + size:]
            if test(cand):
                items = cand
                some = True
            else:
                i += size
        if some:
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(items), n * 2)
    return items


def minimise(rep, trace, sig, budget):
    """Shrink run parameters, faults and schedule choices while the same violation class persists."""
    head, params, faults, choices = parse_trace(trace)
    deadline = time.time() + budget
    orig = (len(params), len(faults), len(choices))
    if not rep.try_(head, params, faults, choices, sig):
        return None, orig, None
    # parameters towards their simplest value: replaying with fewer recorded choices stays a legal run
    for i in range(len(params)):
        if time.time() > deadline - budget * 0.55:
            break
        k, name, v = params[i].split(' ')
        for cand in ('-1000000', ):
            q = list(params)
            q[i] = 'p %s %s' % (name, cand)
            if q[i] != params[i] and rep.try_(head, q, faults, choices, sig):
                params = q
                break
    if rep.try_(head, params, [], choices, sig):
        faults = []
    else:
        faults = ddmin(faults, lambda f: rep.try_(head, params, f, choices, sig), deadline - budget * 0.35)
    if rep.try_(head, params, faults, [], sig):
        choices = []
    else:
        # first cut the tail, then ddmin
        lo, hi = 0, len(choices)
        while lo < hi and time.time() < deadline:
            mid = (lo + hi) // 2
            if rep.try_(head, params, faults, choices[:mid], sig):
                hi = mid
            else:
                lo = mid + 1
        if hi < len(choices) and rep.try_(head, params, faults, choices[:hi], sig):
            choices = choices[:hi]
        choices = ddmin(choices, lambda c: rep.try_(head, params, faults, c, sig), deadline)
    return (head, params, faults, choices), orig, (len(params), len(faults), len(choices))


def symbolise(exe, stack):
    out = []
    for a in stack[:12]:
        try:
            r = sh(['addr2line', '-Cfe', exe, hex(int(a, 16) - 0x555555554000 - 1)], 20)
            fn, loc = r.stdout.strip().split('\n')[:2]
            out.append('%s (%s)' % (re.sub(r'\(.*', '', fn)[:80], re.sub(r'.*/(lib|include|sim)/', r'\1/', loc)))
        except Exception:
            pass
    return out


def known_findings():
    p = VERIF + '/KNOWN_FINDINGS.json'
    try:
        with open(p) as f:
            return json.load(f)['findings']
    except FileNotFoundError:
        return []


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith('-') else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if '--seed' in sys.argv:
        seed = int(sys.argv[sys.argv.index('--seed') + 1])
    scale = float(sys.argv[sys.argv.index('--scale') + 1]) if '--scale' in sys.argv else 1.0
    spec = PLAN[prop]
    t0 = time.time()
    print('check %s tier=%s VERIF_SEED=%d' % (prop, tier, seed))
    worlds = [w['world'] for w in spec['worlds']]
    try:
        exes = dict(zip(worlds, B.build(sorted(set(worlds), key=worlds.index))))
    except B.BuildError as e:
        print('BUILD FAILED (no verdict)\n%s' % e)
        return 3
    tbuild = time.time() - t0
    out = '%s/run/%s-%s-%d' % (B.BUILD, prop, tier, os.getpid())
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    known = [k for k in known_findings() if k.get('property') == prop and k.get('status') == 'known']
    tot = {'runs': 0, 'steps': 0, 'switches': 0, 'preempts': 0, 'vtime_ns': 0, 'syncops': 0, 'other': 0, 'errors': 0, 'fair_runs': 0, 'max_threads': 0}
    faults, counters, sw, cov, samples, others, policies = {}, {}, set(), {}, [], {}, [0, 0, 0, 0]
    viols, errs, per_world, known_hit = [], [], {}, {}
    for w in spec['worlds']:
        exe = exes[w['world']]
        runs = int(w[tier][0] * scale)
        limit = w[tier][1]
        base = '%s/%s' % (out, w['world'])
        r = sh([exe, 'explore', '--world', w['world'], '--prop', prop, '--base', str(seed), '--runs', str(runs), '--time', str(limit), '--jobs', str(JOBS), '--maxviol', '8' if not known else '100000', '--out', base, '--alarm', '90'], limit + 400)
        if r.returncode:
            print('explorer failed: %s %s' % (r.stdout[-500:], r.stderr[-500:]))
            return 3
        wr = 0
        for j in range(JOBS):
            try:
                lines = open('%s.%d' % (base, j)).read().split('\n')
            except FileNotFoundError:
                continue
            for l in lines:
                if not l.strip():
                    continue
                d = json.loads(l)
                if d['type'] == 'summary':
                    for k in tot:
                        if k == 'max_threads':
                            tot[k] = max(tot[k], d[k])
                        else:
                            tot[k] += d[k]
                    wr += d['runs']
                    for k, v in d['faults'].items():
                        f = faults.setdefault(k, [0, 0, 0])
                        for i in range(3):
                            f[i] += v[i]
                    for k, v in d['counters'].items():
                        counters[w['world'] + ': ' + k] = counters.get(w['world'] + ': ' + k, 0) + v
                    for k, v in d['others'].items():
                        others[k] = others.get(k, 0) + v
                    sw.update(d['sw'])
                    cov[w['world']] = cov.get(w['world'], 0) | int(d['cov'], 16)
                    if len(samples) < 6:
                        samples += d['samples'][:1]
                    policies = [a + b for a, b in zip(policies, d['policy'])]
                elif d['type'] == 'violation':
                    d['world'] = w['world']
                    viols.append(d)
                elif d['type'] == 'error':
                    d['world'] = w['world']
                    errs.append(d)
        per_world[w['world']] = wr
        if [v for v in viols if not match_known(known, v)]:
            break
    texp = time.time() - t0 - tbuild
    new = []
    for v in viols:
        k = match_known(known, v)
        if k is not None:
            known_hit[k['id']] = known_hit.get(k['id'], 0) + 1
        else:
            new.append(v)
    for k in known:
        print('KNOWN-FINDING: property=%s %s (seen in %d of %d runs)' % (prop, k['what'], known_hit.get(k['id'], 0), tot['runs']))
    result, replay = 0, None
    notes = []
    if new:
        # gate: same seed again in a fresh process gives the same execution, and the recorded trace replays to it
        new.sort(key=lambda v: v['r']['steps'])
        tried = 0
        for v in new:
            if tried >= 6:
                break
            tried += 1
            exe = exes[v['world']]
            again = json.loads(sh([exe, 'one', '--world', v['world'], '--prop', prop, '--seed', str(v['r']['seed']), '--alarm', '90']).stdout.strip().split('\n')[-1])
            if again['hash'] != v['r']['hash'] or again['outcome'] != 2 or again['signature'] != v['r']['signature']:
                notes.append('seed %d did not reproduce: %s vs %s' % (v['r']['seed'], v['r']['signature'], again['signature']))
                continue
            rep = Replayer(exe, out)
            rr = rep.run(v['trace'])
            if rr['outcome'] != 2 or rr['signature'] != v['r']['signature']:
                notes.append('trace of seed %d did not replay: %s' % (v['r']['seed'], rr['signature']))
                continue
            mini, orig, now = minimise(rep, v['trace'], v['r']['signature'], float(os.environ.get('SIM_MINIMISE', '25' if tier == 'quick' else '90')))
            rdir = B.BUILD + '/replays'
            os.makedirs(rdir, exist_ok=True)
            replay = '%s/%s-%s-%d.trace' % (rdir, prop, v['world'], v['r']['seed'])
            if mini is None:
                shutil.copy(v['trace'], replay)
            else:
                write_trace(replay, *mini)
            f1, f2 = rep.run(replay), rep.run(replay)
            if f1['outcome'] != 2 or f1['hash'] != f2['hash'] or f1['signature'] != v['r']['signature']:
                shutil.copy(v['trace'], replay)
                f1 = rep.run(replay)
            head, p_, f_, c_ = parse_trace(replay)
            head = [h for h in head if h.split(' ')[0] not in ('hash', 'message', 'stack')] + ['hash ' + f1['hash'], 'message ' + f1['message']] + ['stack ' + x for x in symbolise(exe, f1['stack'])]
            write_trace(replay, head, p_, f_, c_)
            print('violation in world %s, seed %d: [%s] %s' % (v['world'], v['r']['seed'], f1['signature'], f1['message']))
            for x in symbolise(exe, f1['stack'])[:8]:
                print('    at ' + x)
            print('minimised trace: %d faults, %d schedule choices (from %d and %d); replay with: %s replay %s' % (len(f_), len(c_), orig[1], orig[2], exe, replay))
            print('VIOLATION property=%s replay=%s' % (prop, replay))
            result = 1
            break
        else:
            pass
        if result == 0:
            print('CHECK ERROR: violations seen but none reproduced: %s' % '; '.join(notes))
            result = 3
    elif errs and len(errs) > max(2, tot['runs'] // 200):
        print('CHECK ERROR: %d runs ended without a verdict, e.g. %s %s' % (len(errs), errs[0]['signature'], errs[0]['message']))
        result = 3
    wall = time.time() - t0
    ncov = sum(bin(x).count('1') for x in cov.values())
    # determinism self-check on a few seeds of this very build
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': tot['runs'], 'distinct_nontrivial': len(sw),
            'rule': 'one evaluation = one simulated run of the whole world; distinct = different sequence of (from-thread, to-thread, code address) context switches; all runs contain concurrent activity',
            'samples': samples[:6],
            'runs_per_world': per_world,
            'runs_per_hour': int(tot['runs'] / max(texp, 0.001) * 3600),
            'seeds_per_hour': int(tot['runs'] / max(texp, 0.001) * 3600),
            'simulated_seconds': round(tot['vtime_ns'] / 1e9, 3),
            'scheduling_steps': tot['steps'], 'context_switches': tot['switches'], 'preemptions': tot['preempts'], 'sync_operations': tot['syncops'],
            'max_live_threads': tot['max_threads'], 'distinct_switch_site_pairs': ncov,
            'runs_by_policy': dict(zip(['random', 'pct', 'round-robin', 'stalled-thread'], policies)),
            'runs_entering_fair_phase': tot['fair_runs'],
            'faults_injected': {k: {'fired': v[0], 'opportunities': v[1], 'runs_with': v[2]} for k, v in sorted(faults.items())},
            'probes': counters, 'runs_ended_by_other_property': others, 'runs_without_verdict': len(errs),
            'components': PROPS['components'], 'determinism': 'every reported violation is reproduced from its seed and from its trace in fresh processes before it is reported',
            'build_s': round(tbuild, 1), 'explore_s': round(texp, 1),
        },
        'assumptions': PROPS['assumptions'] + spec.get('assumptions', []),
        'wall_s': round(wall, 2), 'violations': 1 if result == 1 else 0,
    }
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    if '--no-evidence' not in sys.argv:
        with open('%s/evidence/%s.json' % (VERIF, prop), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s: %d runs, %d distinct schedules, %.1f simulated s, build %.0f s, explore %.0f s, total %.0f s%s' % (prop, tot['runs'], len(sw), tot['vtime_ns'] / 1e9, tbuild, texp, wall, (', ended by other properties: %s' % others) if others else ''))
    if not os.environ.get('SIM_KEEP'):
        shutil.rmtree(out, ignore_errors=True)
    return result


def match_known(known, v):
    for k in known:
        if re.search(k['signature'], v['r']['signature']) and re.search(k['message'], v['r']['message']) and k.get('world', v['world']) == v['world']:
            return k
    return None


if __name__ == '__main__':
    sys.exit(main())
