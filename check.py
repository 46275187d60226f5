#!/usr/bin/env python3
"""python3 check.py <property id>: decides one property from the current source of /repo."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from engine.framework import World            # noqa: E402
from engine import checker                    # noqa: E402
import props                                  # noqa: E402


def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    p = props.PROPS[pid]
    w = World()
    known = known_findings(pid)
    viol, cover = [], {}
    lost = []
    for an in p['analyses']:
        v, c, l = an(w, pid, tier, seed)
        viol += v
        lost += l
        for k, x in c.items():
            if k in cover and isinstance(x, int) and not isinstance(x, bool):
                cover[k] += x
            elif k in cover and isinstance(x, list):
                cover[k] = cover[k] + x
            else:
                cover[k] = x
    cover.setdefault('explanation', p['explain'])
    cover['source_digest'] = w.prog.digest.hexdigest()[:16]
    cover['modules_parsed'] = len([m for m in w.prog.mods if not m.startswith('specs.')])
    new = [x for x in viol if key_of(x) not in known]
    old = [x for x in viol if key_of(x) in known]
    level = p.get('level', 'other')
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cover,
          'assumptions': p.get('assume', []), 'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', pid + '.json')
    if new:
        ev['coverage']['reports'] = new
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    for x in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, key_of(x)))
    print('%s: %s' % (pid, summary(cover)))
    if new:
        for x in new:
            print('  %s:%s: %s: %s' % (x.get('file'), x.get('line'), x.get('function'), x.get('why')))
            if x.get('at'):
                print('    at ' + str(x['at'])[:300])
        print('VIOLATION property=%s replay=%s' % (pid, 'evidence/%s.json' % pid))
        return 1
    if lost:
        for x in lost:
            print('analysis broken: %s' % x)
        return 2
    return 0


def key_of(x):
    return '%s %s' % (x.get('rule', 'value'), x.get('function'))


def known_findings(pid):
    p = os.path.join(HERE, 'known_findings.txt')
    out = set()
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                out.add(line.split(' ', 2)[2].split(' # ')[0].strip())
    return out


def summary(c):
    return ', '.join('%s=%s' % (k, v) for k, v in c.items() if isinstance(v, int) and not isinstance(v, bool))


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1])
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
