#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decides one property; see DESIGN.md."""
import sys, os, json, zlib, time, random, shutil, tempfile, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
from props import PROPS


def run_topics(drv, topics, seed, tier, tmp, t, worlds=None):
    """generates and records the scenarios of some topics and judges them, all in 8 files"""
    binary = build(drv)
    jobs = []
    for topic, rq, rt in topics:
        pre = os.path.join(tmp, drv + '-' + topic)
        reps = rq if tier == 'quick' else rt
        jobs.append((topic, pre, [binary, 'gen', topic, str(seed), str(reps), '8', pre] + ([worlds] if worlds else [])))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: subprocess.run(j[2], stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=600), jobs))
    files = []
    for (topic, pre, _), r in zip(jobs, res):
        if r.returncode < 0:   # the library took the process down
            died(t, 'the process was killed by signal %d while running topic %s' % (-r.returncode, topic), pre, 8)
        elif r.returncode != 0:
            raise ToolError('driver failed on %s: %s' % (topic, r.stderr[-2000:]))
        else:
            files.append(['%s.%d.ndjson' % (pre, i) for i in range(8)])
    check_recordings(join(files, tmp, drv), t)


def join(files, tmp, name, most=20000000):
    """appends recordings to each other, which saves starting TLC"""
    outs = []
    for i in range(8):
        out, last = None, 0
        for f in files:
            with open(f[i]) as fh:
                text = fh.read()
            if not text:
                continue
            heads = [l for l in text.split('\n') if l.startswith('{"op":"new"')]
            grp = json.loads(heads[0]).get('grp', 0)
            if out is None or (grp and grp == last) or os.path.getsize(out) + len(text) > most:
                out = os.path.join(tmp, 'all-%s-%d.ndjson' % (name, len(outs)))
                outs.append(out)
            with open(out, 'a') as o:
                o.write(text)
            last = json.loads(heads[-1]).get('grp', 0)
    return outs


def died(t, why, pre, n):
    """the last scenario which was started, if it is known"""
    last = []
    cur = pre + '.current'
    if os.path.exists(cur):
        last = open(cur).read().split('\n')
    t.violations.append((why, last))


def lifted(s, rng):
    """the same history with a matrix in place of each vector: every row is a rearrangement of the vector"""
    n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5])
    world = rng.choice(['m32', 'm64'] + {2: ['n64'] * 3, 3: ['p32'] * 3, 4: ['q64'] * 3}.get(n, []))
    ini, calls = [], []
    single = any(c['op'] == 'convolve_signal' for c in s['calls'])
    targets = [c['t'] for c in s['calls']]
    for i in s['ini']:
        if single and i['s'] not in targets:
            ini.append(dict(i, s=10 * i['s']))
            continue
        for j in range(n):
            step = 2 if i['cx'] else 1
            k = step * rng.randrange(max(1, len(i['d']) // step)) if j else 0
            ini.append(dict(i, s=10 * i['s'] + j, d=i['d'][k:] + i['d'][:k]))
        calls.append({'op': 'm.build', 't': 10 * i['s'], 'o': [], 'a': [n, 0, 0, 0]})
    odd = any(not i['cx'] and len(i['d']) % 2 for i in s['ini'])
    for c in s['calls']:
        op = c['op']
        if op in ('to_ct', 'to_cf', 'to_ct_force', 'to_cf_force') and (odd or c is not s['calls'][0]):   # half a complex number
            op = 'to_gen'
        elif op in ('to_rt', 'to_rf', 'to_ct', 'to_cf'):
            op += '_force'
        calls.append(dict(c, op='m.' + op, t=10 * c['t'], o=[10 * k for k in c['o']]))
    return dict(s, ini=ini, calls=calls), world


def run_mc(binary, mc, seed, tier, tmp, t):
    group, depth, pts, limit = mc['group'], mc['depth'], mc['pts'], mc.get('limit', 2500)
    module = mc.get('module', 'DspVecMC')
    out = tlc(module + '.tla', module + '.cfg', {'GROUP': group, 'DEPTH': str(depth), 'PTS': str(pts), 'EMIT': '1', 'EVERY': str(mc.get('every', 1)), 'VERIF_SEED': str(seed)}, workers=1, mem='6g')
    scen, rest = [], []
    for l in out.split('\n'):
        if l.startswith('"SCEN '):
            scen.append(json.loads(json.loads(l)[5:]))
        else:
            rest.append(l)
    rest = '\n'.join(rest)
    if 'No error has been found' not in rest:
        raise ToolError('model checking of group %s failed:\n%s' % (group, rest[-3000:]))
    g, d = states(rest)
    t.states += d
    t.transitions += g
    t.mc[group] = dict(states=d, transitions=g, histories=len(scen))
    rng = random.Random(seed * 1000 + 17)
    if len(scen) > limit:
        scen = rng.sample(scen, limit)
    worlds = mc.get('worlds', ['v32', 'v64', 'b64', 's32'])
    pre = os.path.join(tmp, 'mc-' + group)
    outs, grp = [], 0
    for k in range(8):
        with open('%s.%d.in' % (pre, k), 'w') as f:
            for s in scen[k::8]:
                if mc.get('storages'):    # the same history in all storages: a group, see Trace
                    grp += 1
                    members = rng.choice([['v64', 'v64', 'b64'], ['v32', 'v32', 's32', 'a32']])
                else:
                    members = [rng.choice(worlds)]
                if mc.get('lift'):
                    s, world = lifted(s, rng)
                    members = [world]
                for n, w in enumerate(members):
                    buf = ('single', rng.choice([0, 7, 200])) if mc.get('lift') else ('fixed', 4096) if w[0] in 'bsa' else rng.choice([('single', 0), ('single', 7), ('single', 200), ('fixed', 4096), ('no', 0)])
                    if n == 0 and grp:
                        buf = ('single', 0)
                    for i in s['ini']:
                        i['sl'] = rng.choice([0, 0, 1, 2, 5]) if not grp else 0 if n == 0 else rng.choice([60, 101]) if w[0] in 'bsa' else rng.choice([0, 1, 5, 60])
                        i['al'] = rng.randrange(8)
                        i.setdefault('mc', [1, 50000, 100000, 15000, 30000])
                    f.write(json.dumps({'op': 'new', 'w': w, 'q': s['q'], 'nq': s.get('nq', s['q']), 'bk': buf[0], 'bd': buf[1], 'ini': s['ini'], 'sc': s.get('sc', []), 'grp': grp}) + '\n')
                    for h in s.get('hdr', []):
                        f.write(json.dumps(h) + '\n')
                    for c in s['calls']:
                        f.write(json.dumps(c) + '\n')
        r = subprocess.run([binary, 'run', '%s.%d.in' % (pre, k), '%s.%d.ndjson' % (pre, k)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=300)
        if r.returncode < 0:
            died(t, 'the process was killed by signal %d' % -r.returncode, '%s.%d.ndjson' % (pre, k), 1)
            return
        if r.returncode != 0:
            raise ToolError('driver failed: ' + r.stderr[-2000:])
        outs.append('%s.%d.ndjson' % (pre, k))
    check_recordings(outs, t)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    p = PROPS[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='dspcheck.')
    t = Tally()
    try:
        for drv, topics in p.get('topics', {}).items():
            run_topics(drv, topics, seed, tier, tmp, t, p.get('worlds'))
        for mc in p.get('mc', []):
            m = dict(mc)
            if tier == 'thorough':
                m.update(mc.get('thorough', {}))
            run_mc(build(mc.get('driver', 'std')), m, seed, tier, tmp, t)
        for st in p.get('stages', []):
            st(tier, seed, tmp, t)
    except NotExported as e:
        t.violations.append((str(e), []))
    except ToolError as e:
        print('ERROR', e)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    findings = known(pid)
    rest, seen = [], set()
    for why, lines in t.violations:
        k = next((f for f in findings if matches(f, why, lines)), None)
        if k is None:
            rest.append((why, lines))
        else:
            seen.add(k['what'])
    for f in findings:
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    cov = {'states': t.states, 'transitions': t.transitions, 'traces_validated_against_impl': t.scenarios, 'samples': t.samples or [['none']],
           'calls_judged': t.lines, 'calls_per_operation': t.ops, 'model_checked_groups': t.mc, 'known_findings_seen': sorted(seen)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
          'violations': len(rest)}
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if rest:
        rest.sort(key=lambda x: sum(len(l) for l in x[1]))
        d = os.path.join(BUILD, 'replay')
        os.makedirs(d, exist_ok=True)
        for n, (why, lines) in enumerate(rest[:3]):
            path = os.path.join(d, '%s-%d.ndjson' % (pid, n))
            with open(path, 'w') as f:
                f.write('\n'.join(lines) + '\n')
            with open(path + '.why', 'w') as f:
                f.write(why + '\n')
            print('  %s' % why[:600])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        print('%d deviations' % len(rest))
        return 1
    print('OK property=%s calls=%d scenarios=%d states=%d %.1fs' % (pid, t.lines, t.scenarios, t.states, time.time() - t0))
    return 0


def known(pid):
    res = []
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                # finding: property=ID key={json} what
                j, what = json.JSONDecoder().raw_decode(l[l.index('key=') + 4:])
                rest = l[l.index('key=') + 4 + what:].strip()
                res.append(dict(key=j, what=rest))
    return res


def matches(f, why, lines):
    """all fields of the key have to agree with the last line of the scenario"""
    if not lines:
        return False
    try:
        call, new = json.loads(lines[-1]), json.loads(lines[0])
    except ValueError:
        return False
    k = f['key']
    for field, want in k.items():
        if field == 'calls':
            if len(lines) - 1 != want:
                return False
        elif field.startswith('ini.'):
            if new.get('ini', [{}])[0].get(field[4:]) != want:
                return False
        elif field == 'out':      # checksum of the recorded slots
            if zlib.crc32(json.dumps([w['d'] for w in call.get('ws', [])]).encode()) != want:
                return False
        elif field == 'why':
            if want not in why:
                return False
        elif call.get(field, new.get(field)) != want:
            return False
    return True


if __name__ == '__main__':
    sys.exit(main())
