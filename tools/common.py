"""Building the drivers, running TLC, comparing recordings with the specification."""
import subprocess, sys, re, json, os, hashlib, fcntl, tempfile, shutil, random, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DSP_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
SPEC = os.path.join(ROOT, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NIGHTLY = 'nightly-2023-04-01-x86_64-unknown-linux-gnu'


class ToolError(Exception):
    pass


class NotExported(Exception):
    """the library lacks functions which C programs link against"""


def source_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            files = [d]
        else:
            files = []
            for r, ds, fs in os.walk(d):
                ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'tests', 'benches', 'build'))
                files += [os.path.join(r, f) for f in sorted(fs) if f.endswith(('.rs', '.toml', '.lock'))]
        for f in files:
            h.update(f.encode())
            with open(f, 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()


# name -> crate folder, packages of /repo it builds, toolchain, features, rustflags, binary
DRIVERS = {
    'std': dict(crate='vecdrv', pkgs=['basic_dsp_vector'], tc='stable', feat='', flags='', bin='vecdrv'),
    'nostd': dict(crate='vecdrv', pkgs=['basic_dsp_vector'], tc='stable', feat='--no-default-features', flags='', bin='vecdrv'),
    'mat': dict(crate='vecdrv', pkgs=['basic_dsp_vector', 'basic_dsp_matrix'], tc='stable', feat='--features mat', flags='', bin='vecdrv'),
    'cif': dict(crate='vecdrv', pkgs=['basic_dsp_vector', 'basic_dsp_interop'], tc='stable', feat='--features cif', flags='', bin='vecdrv'),
    'sse2': dict(crate='vecdrv', pkgs=['basic_dsp_vector'], tc=NIGHTLY, feat='--no-default-features --features use_sse2', flags='', bin='vecdrv'),
    'avx2': dict(crate='vecdrv', pkgs=['basic_dsp_vector'], tc=NIGHTLY, feat='--no-default-features --features use_avx2',
                 flags='-C target-feature=+sse2,+sse3,+avx,+avx2', bin='vecdrv'),
}


def build(name):
    """Builds a driver against /repo's working tree; returns the path of its binary."""
    d = DRIVERS[name]
    os.makedirs(BUILD, exist_ok=True)
    crate = os.path.join(ROOT, 'harness', d['crate'])
    tgt = os.path.join(BUILD, 't-' + name)
    stamp = os.path.join(BUILD, 'stamp-' + name)
    with open(os.path.join(BUILD, 'lock-' + name), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = source_hash([REPO + '/vector', REPO + '/matrix', REPO + '/interop', REPO + '/Cargo.toml', crate])
        binary = os.path.join(tgt, 'debug', d['bin'])
        old = open(stamp).read() if os.path.exists(stamp) else ''
        if old == h and os.path.exists(binary):
            return binary
        env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=tgt)
        if d['flags']:
            env['RUSTFLAGS'] = d['flags']
        cargo = ['cargo', '+' + d['tc']]
        if old != '':  # do not rely on time stamps
            for p in d['pkgs']:
                subprocess.run(cargo + ['clean', '--offline', '-p', p], cwd=crate, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.exists(stamp):
            os.remove(stamp)
        cmd = cargo + ['build', '--offline'] + (d['feat'].split() if d['feat'] else [])
        r = subprocess.run(cmd, cwd=crate, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if r.returncode != 0:
            gone = sorted(set(re.findall(r"undefined (?:symbol: |reference to [`'])(\w+)", r.stdout)))
            if name == 'cif' and gone and not any(re.match(r'error\[', l) for l in r.stdout.split('\n')):
                raise NotExported('the library does not export ' + ', '.join(gone))
            raise ToolError('build of driver %s failed:\n%s' % (name, r.stdout[-4000:]))
        with open(stamp, 'w') as f:
            f.write(h)
        return binary


def tlc(spec, cfg, env, workers=1, mem='2g', timeout=800, extra=()):
    """Runs TLC and returns its output."""
    meta = tempfile.mkdtemp(prefix='tlc.')
    try:
        e = dict(os.environ)
        e.update(env)
        gc = '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC'
        r = subprocess.run(['java', gc, '-Xmx' + mem, '-Xss64m', '-XX:TieredStopAtLevel=4', '-cp', JAR, 'tlc2.TLC', '-workers', str(workers),
                            '-noGenerateSpecTE', '-metadir', meta, '-config', os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, spec)],
                           env=e, cwd=meta, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=timeout)
        return r.stdout
    except subprocess.TimeoutExpired:
        raise ToolError('TLC did not finish on %s' % spec)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def states(out):
    """(states generated, distinct states) of a TLC run"""
    g = d = 0
    for l in out.split('\n'):
        if 'states generated,' in l and 'distinct states found' in l and not l.startswith('Progress'):
            w = l.replace(',', '').split()
            g, d = int(w[0]), int(w[3])
    return g, d


def scenario(lines, n):
    """the lines of the scenario which contains line n (1 based), up to that line"""
    k = n - 1
    while k > 0 and not lines[k].startswith('{"op":"new"'):
        k -= 1
    return lines[first(lines, k):n]


def first(lines, k):
    """the members of a group of scenarios are compared with the first one of the group"""
    try:
        grp = json.loads(lines[k]).get('grp', 0)
    except ValueError:
        grp = 0
    f = k
    while grp and k > 0:
        k -= 1
        if lines[k].startswith('{"op":"new"'):
            if json.loads(lines[k]).get('grp', 0) != grp:
                break
            f = k
    return f


class Tally:
    def __init__(self):
        self.states = self.transitions = self.scenarios = self.lines = 0
        self.violations = []      # (reason, scenario lines)
        self.samples = []
        self.ops = {}
        self.mc = {}

    def count(self, recording):
        for l in recording:
            if not l:
                continue
            if l.startswith('{"op":"new"'):
                self.scenarios += 1
            else:
                op = l[7:l.index('"', 7)]
                self.ops[op] = self.ops.get(op, 0) + 1
                self.lines += 1


def judge(path, spec='Trace.tla', cfg='Trace.cfg'):
    out = tlc(spec, cfg, {'TRACE': path}, mem='3g')
    bad, done = [], False
    for l in out.split('\n'):
        l = l.strip()
        if l.startswith('"'):
            l = l.strip('"').replace('\\"', '"')
        if l.startswith('LINES'):
            done = True
        if l.startswith('MISMATCH'):
            p = l.split(' ', 2)
            bad.append((int(p[1]), p[2]))
    if not done:
        # A recorded line for which the specification has no value (it is outside of what the
        # operators are defined for, e.g. values larger than any which the scenario can produce)
        # does not agree with the specification either.
        at = re.findall(r'^(?:/\\ )?l = (\d+)$', out, re.M)
        if 'Error:' not in out or not at or any(x in out for x in ('OutOfMemory', 'out of memory', 'StackOverflow', 'GC overhead')):
            raise ToolError('TLC failed on %s:\n%s' % (path, out[-3000:]))
        why = re.sub(r'\s+', ' ', out[out.index('Error:') + 6:])[:300]
        bad.append((int(at[-1]), 'outside of the specification: ' + why))
    g, d = states(out)
    return bad, g, d


def check_recordings(files, t, spec='Trace.tla', cfg='Trace.cfg'):
    files = [f for f in files if os.path.getsize(f) > 0]
    with ThreadPoolExecutor(8) as ex:
        for f, (bad, g, d) in zip(files, ex.map(lambda f: judge(f, spec, cfg), files)):
            with open(f) as fh:
                lines = fh.read().split('\n')
            t.count(lines)
            t.states += d
            t.transitions += g
            if lines and len(t.samples) < 3:
                s = scenario(lines, min(len(lines) - 1, 7 + 40 * len(t.samples)))
                t.samples.append([x[:400] for x in s[-3:]])
            for n, why in bad:
                t.violations.append((why, scenario(lines, n)))
