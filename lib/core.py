"""Driver shared by all checks: TLC runs, compiling and running the harness
against /repo's headers, verdicts, evidence."""
import concurrent.futures as cf
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
INC = os.path.join(REPO, 'include')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = max(2, min(8, os.cpu_count() or 4))
T0 = time.time()


class ModelError(Exception):
    """The machinery itself failed (never a verdict about the code)."""


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, flush=True)


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='vpcheck.')
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def limits(mem_gb, cpu_s):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CPU, (cpu_s, cpu_s))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
        want = 256 << 20
        if soft != resource.RLIM_INFINITY and soft < want:
            if hard == resource.RLIM_INFINITY or hard >= want:
                resource.setrlimit(resource.RLIMIT_STACK, (want, hard))
    return f


def run(cmd, timeout=300, mem_gb=6, cwd=None, env=None, cap=4000000):
    """-> (rc, stdout, stderr); rc None on timeout.  Output is capped."""
    with tempfile.TemporaryFile() as o, tempfile.TemporaryFile() as e:
        try:
            p = subprocess.Popen(cmd, stdout=o, stderr=e, stdin=subprocess.DEVNULL, cwd=cwd,
                                 env=env, preexec_fn=limits(mem_gb, int(timeout) + 30),
                                 start_new_session=True)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                rc = None
        finally:
            pass
        o.seek(0)
        e.seek(0)
        return rc, o.read(cap).decode('latin-1'), e.read(cap).decode('latin-1')


# --------------------------------------------------------------------------
# TLC
STATS = re.compile(r'(\d+) states generated, (\d+) distinct states found')


class Tlc:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.runs = 0

    def __call__(self, module, cfg, env, scratch, workers=CORES, timeout=600, heap='8g',
                 simulate=None):
        """Runs TLC on spec/<module>.tla -> (verdict, output); verdict is
        'ok' | 'violation'.  Raises ModelError otherwise."""
        meta = tempfile.mkdtemp(prefix='tlc.', dir=scratch)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in env.items()})
        cmd = ['java', '-Djava.io.tmpdir=' + meta, '-Xss256m', '-Xmx' + heap, '-XX:+UseParallelGC',
               '-XX:ParallelGCThreads=%d' % CORES,
               '-cp', JARS, 'tlc2.TLC', '-seed', str(SEED), '-workers', str(workers),
               '-metadir', meta, '-noGenerateSpecTE', '-config', os.path.join(SPEC, cfg)]
        if simulate:
            cmd += ['-simulate', simulate]
        cmd.append(os.path.join(SPEC, module + '.tla'))
        rc, out, err = run(cmd, timeout=timeout, mem_gb=40, cwd=SPEC, env=e)
        shutil.rmtree(meta, ignore_errors=True)
        m = STATS.findall(out)
        if m:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
        self.runs += 1
        if rc == 0:
            return 'ok', out
        if rc == 12:
            return 'violation', out
        tail = '\n'.join((out + err).splitlines()[-40:])
        raise ModelError('TLC %s/%s: rc=%s\n%s' % (module, cfg, rc, tail[:6000]))


# --------------------------------------------------------------------------
# Building the harness
class Config:
    """One way of compiling: standard, compiler, macros, container, variant."""

    def __init__(self, name, std, defs=(), cxx='g++', container='string', variant=0,
                 flags=(), limits=None):
        self.name, self.std, self.defs, self.cxx = name, std, tuple(defs), cxx
        self.container, self.variant, self.flags = container, variant, tuple(flags)
        self.limits = limits or {}
        names = {'seq': 'SEQUENCE', 'ocx': 'ONE_CHAR_EXCEPT', 'oneof': 'ONE_OF', 'string': 'STRING'}
        self.defs += tuple('-DBOOST_METAPARSE_LIMIT_%s_SIZE=%d' % (names[k], v)
                           for k, v in sorted(self.limits.items()))

    def pch_key(self):
        return (self.std, self.defs, self.cxx, self.flags)

    def cmd(self, depth=4000):
        c = [self.cxx, '-w', '-std=' + self.std, '-ftemplate-depth=%d' % depth,
             '-fno-diagnostics-color']
        if self.cxx == 'g++':
            c += ['-fmax-errors=400', '-ftemplate-backtrace-limit=12', '-O0', '-fno-rtti']
        else:
            c += ['-ferror-limit=400', '-ftemplate-backtrace-limit=12', '-O0',
                  '-fbracket-depth=2000']
        c += list(self.flags) + list(self.defs)
        c += ['-I', INC, '-I', HARNESS]
        return c

    def is98(self):
        return self.std.endswith('98') or any('STD=1998' in d for d in self.defs)


FALLBACK = '/usr/include/boost/metaparse'


LONG = re.compile(r'(?:-?\d+, ?){60}')


class Builder:
    def __init__(self, scratch, header='vp.hpp'):
        self.scratch = scratch
        self.header = header
        self.pch = {}
        self.compiled = 0
        self.nfile = 0
        self.broken = {}

    def prepare(self, configs):
        keys = {}
        for c in configs:
            keys.setdefault((c.pch_key(), self.header), c)
        todo = [(k, c) for k, c in keys.items() if k not in self.pch and k not in self.broken]
        with cf.ThreadPoolExecutor(CORES) as ex:
            list(ex.map(lambda kc: self._pch(*kc), todo))

    def _pch(self, key, c):
        d = tempfile.mkdtemp(prefix='pch.', dir=self.scratch)
        dep = os.path.join(d, 'dep')
        gch = os.path.join(d, self.header + ('.gch' if c.cxx == 'g++' else '.pch'))
        cmd = c.cmd() + ['-x', 'c++-header', os.path.join(HARNESS, self.header), '-MD', '-MF',
                         dep, '-o', gch]
        for _ in range(2):
            rc, out, err = run(cmd, timeout=180)
            if rc == 0:
                break
        if rc != 0:
            # a precompiled header needs its memory at a fixed address and may
            # fail for reasons that have nothing to do with the source
            for _ in range(2):
                rc, out, err = run(c.cmd() + ['-x', 'c++', '-fsyntax-only', os.path.join(HARNESS, self.header),
                                              '-MD', '-MF', dep], timeout=300, mem_gb=16)
                if rc == 0:
                    break
            if rc != 0:
                self.broken[key] = first_errors(err)
                return
            gch = None
        if FALLBACK in open(dep).read():
            self.broken[key] = 'a public header is missing from the library'
            return
        if gch is None:
            self.pch[key] = None
            return
        if c.cxx == 'g++':
            # gcc looks for <dir>/vp.hpp.gch when including "vp.hpp"
            shutil.copy(os.path.join(HARNESS, self.header), d)
        self.pch[key] = d

    def compile(self, c, lines, tag, timeout=300, depth=None):
        """Compiles main() { lines } -> (exe | None, set of bad indexes, text)."""
        key = (c.pch_key(), self.header)
        d = self.pch[key]
        src = os.path.join(self.scratch, tag + '.cpp')
        exe = os.path.join(self.scratch, tag + '.exe')
        with open(src, 'w') as f:
            f.write('#include "%s"\n' % self.header)
            f.write('namespace mp = boost::metaparse;\nint main() {\n')
            for l in lines:
                f.write(l + '\n')
            f.write('}\n')
        # long lists of characters need deep instantiations; elsewhere a low bound keeps
        # runaway recursion in the code under test cheap to detect
        deep = any(LONG.search(l) for l in lines)
        cmd = c.cmd(max(4000 if deep else 1500, depth or 0))
        if d is None:
            pass
        elif c.cxx == 'g++':
            cmd = [cmd[0], '-I', d] + cmd[1:] + ['-include', self.header]
        else:
            cmd += ['-include-pch', os.path.join(d, self.header + '.pch')]
        rc, out, err = run(cmd + [src, '-o', exe], timeout=timeout)
        self.compiled += 1
        os.unlink(src)
        if rc == 0:
            return exe, set(), ''
        base = os.path.basename(src)
        where = []
        for n, l in enumerate(lines):
            where += [n] * (l.count('\n') + 1)
        bad = {int(m) - 4 for m in re.findall(re.escape(base) + r':(\d+):', err)}
        bad = {where[b] for b in bad if 0 <= b < len(where)}
        return None, bad, ('timeout' if rc is None else first_errors(err))


def first_errors(err):
    ls = [l for l in err.splitlines() if 'error' in l]
    return '\n'.join(x[:300] for x in ls[:3])


def execute(exe, timeout=60):
    rc, out, err = run([exe], timeout=timeout, mem_gb=2)
    os.unlink(exe)
    return rc, out


def ints(s):
    return [int(x) for x in s.split()]


def parse_output(out):
    """'S id' / 'A ..' / 'E ..' lines -> {id: [event]}"""
    res = {}
    cur = None
    for l in out.splitlines():
        if l.startswith('S '):
            cur = res.setdefault(int(l[2:]), [])
        elif l.startswith('A '):
            a, b, c = l[2:].split('|')
            cur.append({'st': 'acc', 'res': ints(a), 'rem': ints(b), 'pos': ints(c), 'msg': []})
        elif l.startswith('E '):
            a, b = l[2:].split('|')
            cur.append({'st': 'rej', 'res': [], 'rem': [], 'pos': ints(b), 'msg': ints(a)})
    return res


def run_lines(builder, jobs, batch=400, enough=8, size=10 ** 9):
    """jobs: list of (config, id, line).  Compiles and runs them in batches.
    -> {(config.name, id): stdout text of the line's own section | None}
    None: the line does not compile (confirmed in isolation).
    A translation unit has at most `batch` lines of `size` characters together.
    Where lines are expected to compile (batch > 1), it stops looking for more of
    those that do not after `enough` of them: those not reached have no result."""
    deadline = T0 + 720 if TIER != 'thorough' else None
    builder.prepare([j[0] for j in jobs])
    results = {}
    notes = {}
    live = []
    for c, i, l in jobs:
        key = (c.pch_key(), builder.header)
        if key in builder.broken:
            results[(c.name, i)] = None
            notes[(c.name, i)] = builder.broken[key]
        else:
            live.append((c, i, l))
    groups = {}
    for c, i, l in live:
        groups.setdefault(c.name, (c, []))[1].append((i, l))
    units = []
    for c, items in groups.values():
        items.sort(key=lambda x: bool(LONG.search(x[1])))
        per = max(1, min(batch, (len(items) + CORES - 1) // CORES))
        unit, total = [], 0
        for x in items:
            if unit and (len(unit) >= per or total + len(x[1]) > size):
                units.append((c, unit))
                unit, total = [], 0
            unit.append(x)
            total += len(x[1])
        if unit:
            units.append((c, unit))
    counter = [0]

    def tag():
        counter[0] += 1
        builder.nfile += 1
        return 't%d_%d' % (builder.nfile, counter[0])

    def one(c, items, depth=0):
        while items:
            if batch > 1 and len(notes) >= enough:
                return
            if deadline and time.time() > deadline:
                if notes:
                    return
                raise ModelError('out of time while compiling')
            exe, bad, text = builder.compile(c, [l for _, l in items], tag())
            if exe:
                rc, out = execute(exe)
                if rc != 0 and len(items) > 1:
                    h = len(items) // 2
                    one(c, items[:h], depth + 1)
                    one(c, items[h:], depth + 1)
                    return
                if rc != 0:
                    results[(c.name, items[0][0])] = None
                    notes[(c.name, items[0][0])] = 'crashed rc=%s' % rc
                    return
                sec = split_sections(out)
                for i, _ in items:
                    results[(c.name, i)] = sec.get(i, '')
                return
            if len(items) == 1:
                # confirm
                exe2, _, text2 = builder.compile(c, [items[0][1]], tag(), depth=2600)
                if exe2:
                    rc, out = execute(exe2)
                    results[(c.name, items[0][0])] = split_sections(out).get(items[0][0], '')
                else:
                    results[(c.name, items[0][0])] = None
                    notes[(c.name, items[0][0])] = text2
                return
            if bad and len(bad) <= 12 and depth == 0:
                for b in sorted(bad):
                    one(c, [items[b]], depth + 1)
                items = [x for n, x in enumerate(items) if n not in bad]
                continue
            if bad:
                # many failures: a sample is enough for the verdict
                keep = sorted(bad)[:4]
                for b in keep:
                    one(c, [items[b]], depth + 1)
                failing = [b for b in keep if results.get((c.name, items[b][0]), 0) is None]
                if failing:
                    items = [x for n, x in enumerate(items) if n not in bad]
                    continue
            h = len(items) // 2
            one(c, items[:h], depth + 1)
            one(c, items[h:], depth + 1)
            return

    with cf.ThreadPoolExecutor(CORES) as ex:
        fs = [ex.submit(one, c, items) for c, items in units]
        for f in fs:
            f.result()
    return results, notes


def split_sections(out):
    sec = {}
    cur = None
    for l in out.splitlines(True):
        if l.startswith('S '):
            cur = int(l[2:])
            sec[cur] = l
        elif cur is not None:
            sec[cur] += l
    return sec


# --------------------------------------------------------------------------
class Check:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []
        self.known = []
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0,
                    'samples': 0}
        self.assumptions = []
        self.tlc = Tlc()
        self.level = 'model_checking'

    def violation(self, what, data):
        self.violations.append((what, data))

    def finish(self):
        self.cov['states'] += self.tlc.states
        self.cov['transitions'] += self.tlc.transitions
        self.cov['tlc_runs'] = self.tlc.runs
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        known = load_known(self.prop)
        seen = set()
        fresh = []
        for what, data in self.violations:
            hit = next((k for k in known if k['match'] == data.get('known_key')), None)
            if hit:
                seen.add(hit['match'])
            else:
                fresh.append((what, data))
        for k in known:
            if k['match'] in seen:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        ev = {'property': self.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick',
              'seed': SEED, 'level': self.level, 'coverage': self.cov,
              'wall_s': round(time.time() - T0, 2)}
        if self.assumptions:
            ev['assumptions'] = self.assumptions
        ev['violations'] = len(fresh)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if not fresh:
            log('%s holds on everything explored: %s' % (self.prop, json.dumps(self.cov)))
            return 0
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s.json' % self.prop)
        with open(path, 'w') as f:
            json.dump([{'what': w, 'data': x} for w, x in fresh[:50]], f, indent=1)
        for w, x in fresh[:5]:
            print('  ' + w[:600])
        print('%d violation(s)' % len(fresh))
        print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
        return 1


def load_known(prop):
    path = os.path.join(VERIF, 'known-findings.txt')
    res = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if not l.startswith('{'):
                continue
            k = json.loads(l)
            if k.get('status') == 'known' and k['property'] == prop:
                res.append(k)
    return res
