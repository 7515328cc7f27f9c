#!/usr/bin/env python3
"""Runs one check:  run.py check C09   (tier and seed from VERIF_TIER / VERIF_SEED)
                    run.py replay FILE (exit 1 if the recorded violation reproduces)"""
import json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, 'build')
ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = ('detect_leaks=0:symbolize=1:allocator_may_return_null=1:handle_sigill=0:handle_abort=0:'
                       'detect_stack_use_after_return=0:quarantine_size_mb=16:thread_local_quarantine_size_kb=256')
sys.path.insert(0, HERE)
from props import PROPS, COMMON_REAL, COMMON_STUB  # noqa: E402


def die(msg):
    print('ERROR: ' + msg)
    sys.exit(3)


class Amalgamation(Exception):
    """The single-file distribution could not be generated or compiled."""


def build(variant):
    p = subprocess.run(['bash', os.path.join(HERE, 'sim/build.sh'), variant, BUILD],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode == 4:
        raise Amalgamation(p.stdout[-4000:])
    if p.returncode:
        print(p.stdout[-4000:])
        die('building the simulator from /repo failed')
    return os.path.join(BUILD, variant, variant.split('-')[0])


def replay(binary, path):
    p = subprocess.run([binary, 'replay', path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
    m = re.search(r'RESULT bad=(\d) cls=(\S+) hash=(\w+) detail=(.*)', p.stdout)
    if not m:
        return None
    return m.group(1) == '1', m.group(2), m.group(3), m.group(4)


def EMPTY(variant):
    d = dict(variant=variant, violations=[], known={}, stats={}, samples=[], rule='')
    for k in 'runs steps simtime distinct_runs distinct_states det_checked det_bad nonrepro explore_s'.split():
        d[k] = 0
    return d


def findings(prop):
    out = []
    for l in open(os.path.join(HERE, 'known_findings.txt')):
        l = l.strip()
        if not l or l.startswith('#') or l.startswith('fixed:'):
            continue
        m = re.match(r'finding: property=(\S+) class=(\S+) variant=(\S+) replay=(\S+) (.*)', l)
        if not m:
            die('bad line in known_findings.txt: ' + l)
        if m.group(1) == prop:
            out.append(dict(classes=m.group(2).split(','), variant=m.group(3),
                            replay=os.path.join(HERE, m.group(4)), what=m.group(5)))
    return out


def diverging(prop, seed, b, secs, outdir):
    """The same plans on the single-file and on the separate build: everything observed has to be equal."""
    a = build('hist')

    def digest(x, n, limit):
        out = subprocess.run([x, 'digest', '--prop', prop, '--seed', str(seed), '--n', str(n), '--secs', '%.1f' % limit],
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=ENV).stdout
        return dict(l.split() for l in out.splitlines())

    x = digest(b, 100000, secs / 2)
    y = digest(a, max([int(i) for i in x] or [0]) + 1, secs * 5)
    both = [i for i in x if i in y]
    bad = sorted((i for i in both if x[i] != y[i]), key=int)
    if not bad:
        return len(both), []
    plan = subprocess.run([a, 'plan', '--prop', prop, '--seed', str(seed), '--idx', bad[0]], stdout=subprocess.PIPE, text=True).stdout
    path = os.path.join(outdir, '%s-differs-%s.hist-am.replay' % (prop, bad[0]))

    def differs(lines):
        with open(path, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        p, q = replay(a, path), replay(b, path)
        return p and q and p[2] != q[2] and (p, q)

    lines, t0 = plan.splitlines(), time.time()
    if not differs(lines):
        die('a difference between the two builds did not reproduce')
    n = max(1, len(lines) // 2)
    while n and time.time() - t0 < 60:
        i = 0
        while i < len(lines) and time.time() - t0 < 60:
            cut = [l for j, l in enumerate(lines) if not (i <= j < i + n and l.startswith('step'))]
            if len(cut) < len(lines) and differs(cut):
                lines = cut
            else:
                i += n
        n //= 2
    differs(['# build-diverge: the single-file and the separate build observe different things'] + lines)
    return len(both), [{'cls': 'build-diverge', 'detail': 'the single-file distribution behaves differently from the library', 'replay': path}]


def check(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    P = PROPS[prop]
    print('VERIF_SEED=%d VERIF_TIER=%s property=%s' % (seed, tier, prop))
    known = findings(prop)
    violations, parts, lost = [], [], []
    hit_known = {}
    total = P['secs'][tier]
    outdir = os.path.join(HERE, 'replays')
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    for variant, share in P['variants']:
        if share == 0 and tier == 'quick':
            continue
        try:
            b = build(variant)
        except Amalgamation as e:
            build('hist')  # the library itself builds: the distribution is at fault
            path = os.path.join(outdir, '%s-amalgamation.%s.replay' % (prop, variant))
            with open(path, 'w') as f:
                f.write('the single-file distribution cannot be generated or compiled\n' + str(e))
            violations.append({'cls': 'amalgamation', 'detail': str(e)[-600:], 'replay': path})
            parts.append(EMPTY(variant))
            continue
        for k in known:
            if k['variant'] == variant:
                r = replay(b, k['replay'])
                if r is None:
                    die('replaying %s failed' % k['replay'])
                if r[0] and r[1] in k['classes']:
                    hit_known[k['what']] = hit_known.get(k['what'], 0) + 1
                elif r[0] and prop == open(k['replay']).read().split('prop ')[1].split()[0]:
                    print('note: %s now fails as %s (%s)' % (k['replay'], r[1], r[3]))
        js = os.path.join(BUILD, variant, prop + '.json')
        if os.path.exists(js):
            os.remove(js)
        secs = total * (share if share else 0.3)
        cmd = [b, 'explore', '--prop', prop, '--seed', str(seed), '--secs', '%.1f' % secs, '--out', outdir,
               '--json', js, '--maxviol', '2', '--minsecs', '60' if tier == 'quick' else '240',
               '--det', '32' if tier == 'quick' else '256']
        kc = [c for k in known for c in k['classes']]
        if kc:
            cmd += ['--known', ','.join(kc)]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
        if not os.path.exists(js):
            print(p.stdout[-3000:])
            die('the simulator did not finish (status %s)' % p.returncode)
        d = json.load(open(js))
        d['variant'] = variant
        parts.append(d)
        for k in known:
            n = sum(d['known'].get(c, 0) for c in k['classes'])
            if n:
                hit_known[k['what']] = hit_known.get(k['what'], 0) + n
        if d['det_bad']:
            print(p.stdout[-3000:])
            die('%d of %d plans did not replay identically' % (d['det_bad'], d['det_checked']))
        for v in d['violations']:
            if variant not in ('hist', 'thr'):  # the file name tells which build it belongs to
                q = v['replay'].replace('.replay', '.%s.replay' % variant)
                os.replace(v['replay'], q)
                v['replay'] = q
            r = [replay(b, v['replay']) for _ in range(2)]
            if any(x is None or not x[0] or x[1] != v['cls'] for x in r):
                lost.append('%s does not reproduce in a fresh process: %s' % (v['replay'], r))
                continue
            if r[0][2] != v['hash'] or r[0] != r[1]:
                # the defect itself reads memory nobody controls: the same violation, other values
                print('note: %s fails every time, with differing details' % v['replay'])
            violations.append(v)
        if lost and not violations:
            die(lost[0])
        if variant == 'hist-am' and not d['violations']:
            d['stats']['runs_compared_with_the_separate_build'], bad = diverging(prop, seed, b, total * 0.2, outdir)
            violations += bad
        if d['nonrepro'] and not d['violations']:
            print(p.stdout[-3000:])
            die('a violation did not reproduce')
    wall = time.time() - t0
    ev = evidence(prop, P, tier, seed, parts, wall, violations, hit_known, known)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for k in known:
        if k['what'] in hit_known:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    runs = sum(d['runs'] for d in parts)
    print('%d simulated runs, %d steps, %d simulated events in %.0f s' % (
        runs, sum(d['steps'] for d in parts), sum(d['simtime'] for d in parts), wall))
    for v in violations:
        print('%s: %s' % (v['cls'], v['detail']))
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(v['replay'], HERE)))
    sys.exit(1 if violations else 0)


def evidence(prop, P, tier, seed, parts, wall, violations, hit_known, known):
    runs = sum(d['runs'] for d in parts)
    ex = sum(d['explore_s'] for d in parts) or 1
    stats = {}
    for d in parts:
        for k, n in d['stats'].items():
            stats[k] = stats.get(k, 0) + n
    faults = {k: n for k, n in stats.items() if k.startswith(('fault_', 'refused_in_', 'crash', 'torn_', 'switch_', 'preempt'))}
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': sum(d['distinct_runs'] for d in parts),
        'rule': parts[0]['rule'],
        'samples': parts[0]['samples'],
        'simulated_runs_per_hour': int(runs / ex * 3600),
        'seeds_per_hour': int(runs / ex * 3600),
        'client_steps': sum(d['steps'] for d in parts),
        'simulated_time_events': sum(d['simtime'] for d in parts),
        'simulated_time_note': 'the library reads no clock; simulated time is the number of simulator events '
                               '(client steps, allocation requests and, for threads, memory accesses)',
        'faults_injected': faults,
        'probes': {k: n for k, n in stats.items() if k not in faults},
        'distinct_states': sum(d['distinct_states'] for d in parts),
        'determinism_selfcheck': {'plans_run_twice': sum(d['det_checked'] for d in parts), 'diverged': sum(d['det_bad'] for d in parts)},
        'real_components': P.get('real', COMMON_REAL),
        'stub_components': P.get('stub', COMMON_STUB),
        'variants': [d['variant'] for d in parts],
        'known_findings_listed': len(known),
        'known_findings_hit': hit_known,
    }
    return {'property': prop, 'tier': tier, 'seed': seed, 'level': P['level'], 'coverage': cov,
            'assumptions': P['assumptions'], 'wall_s': round(wall, 2), 'violations': len(violations)}


if __name__ == '__main__':
    if len(sys.argv) < 3:
        die(__doc__)
    if sys.argv[1] == 'check':
        check(sys.argv[2])
    elif sys.argv[1] == 'replay':
        t = open(sys.argv[2]).read()
        variant = 'thr' if 'engine threads' in t else 'hist'
        m = re.search(r'\.(hist-\w+)\.replay$', sys.argv[2])
        if m:
            variant = m.group(1)
        try:
            b = build(variant)
        except Amalgamation as e:
            print(e)
            sys.exit(1)
        r = replay(b, sys.argv[2])
        print(r)
        if '# build-diverge' in t:
            q = replay(build('hist'), sys.argv[2])
            print(q)
            sys.exit(1 if r and q and r[2] != q[2] else 0)
        sys.exit(1 if r and r[0] else 0)
    elif sys.argv[1] == 'build':
        print(build(sys.argv[2]))
