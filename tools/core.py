"""Building the library under test, running TLC, reporting."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
CORPUS = os.path.join(VERIF, 'corpus')
BUILD = os.path.join(VERIF, 'build')
EVID = os.path.join(VERIF, 'evidence')
JAR = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    """The check could not be carried out."""


def sh(cmd, timeout=600, cwd=None, env=None, ok=(0,)):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, env=env)
    out = p.stdout.decode('utf-8', 'replace')
    if ok is not None and p.returncode not in ok:
        raise CheckError('command failed (%d): %s\n%s' % (p.returncode, ' '.join(cmd)[:400], out[-4000:]))
    return p.returncode, out


def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def repo_sources():
    """Every C/C++ source of the repository: the build key must change whenever any of them does."""
    res = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in ('.git', 'build', 'x64', 'results')]
        res += [os.path.join(d, f) for f in fs if f.endswith(('.h', '.hpp', '.cpp', '.c', '.cc', '.inl', '.ipp'))]
    return res


def dictionary():
    """The integers written in the conversion sources (long tables aside): one of the input generators tries them as
    patterns, fractions, exponents, factors and decimals."""
    words = set()
    for p in repo_sources():
        if os.path.relpath(p, REPO).split(os.sep)[0] in ('benchmark', 'tests'):
            continue
        with open(p, errors='replace') as f:
            s = re.sub(r'//[^\n]*|/\*.*?\*/', ' ', f.read(), flags=re.S)
        s = re.sub(r'\{[^;{}]*\}', lambda m: m.group(0) if m.group(0).count(',') < 64 else ' ', s)
        s = re.sub(r'(?:\{\s*0x\w+\s*,\s*0x\w+\s*\}\s*,?\s*){16,}', ' ', s)
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F']+|\d[\d']*)(?:[uU]?[lL]{0,2}[uU]?)(?![\w.])", s):
            t = m.group(1).replace("'", '')
            try:
                v = int(t, 16) if t[:2] in ('0x', '0X') else int(t, 10)
            except ValueError:
                continue
            if 2 < v < 2**64:
                words.add(v)
    return sorted(words)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != 'thorough'
        self.t0 = time.time()
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix='run-%s-' % prop, dir=BUILD)
        self.states = self.trans = self.traces = self.events = 0
        self.models, self.info, self.samples, self.rejects, self.assume = [], {}, [], [], []
        self.key = digest(repo_sources())
        self.log_lines = []
        words = os.path.join(self.work, 'words.txt')
        with open(words, 'w') as f:
            f.write('\n'.join(str(v) for v in dictionary()) + '\n')
        os.environ['VI_WORDS'] = words

    def log(self, s):
        print('[%6.1fs] %s' % (time.time() - self.t0, s), flush=True)

    def dir(self, name):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        return d

    # ---- builds -----------------------------------------------------------------------------
    def compile_all(self, jobs):
        """jobs: list of argv; run in parallel"""
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda a: sh(a, timeout=600), jobs))

    def tool(self, name, srcs, cxx='clang++', flags=(), libs=('-ldl', '-lpthread')):
        """A driver that does not contain the library."""
        srcs = [os.path.join(HARN, s) for s in srcs]
        hdrs = [os.path.join(HARN, f) for f in os.listdir(HARN) if f.endswith(('.h', '.hpp'))]
        k = digest(srcs + hdrs, cxx + ' '.join(flags))
        out = os.path.join(BUILD, '%s-%s' % (name, k))
        if not os.path.exists(out):
            tmp = out + '.%d' % os.getpid()
            sh([cxx, '-O2', '-std=c++17', '-w', '-I' + HARN] + list(flags) + srcs + ['-o', tmp] + list(libs))
            os.rename(tmp, out)
        return out

    def lib(self, name='native', cxx='clang++', opt='-O2', flags=(), parts=('conv',), main=None, optional=False):
        """_lib, with two ways out when the sources do not compile in the requested configuration: a plain build is
        tried with the other compiler, and a build that only simulates another platform is left out (None)."""
        try:
            return self._lib(name, cxx, opt, flags, parts, main)
        except CheckError as e:
            self.info.setdefault('not_built', {})[name] = str(e)[-600:]
            self.log('%s does not build: %s' % (name, str(e)[-300:].replace('\n', ' ')))
            if optional:
                return None
            if flags:
                raise
            return self._lib(name + '-2', 'g++' if cxx == 'clang++' else 'clang++', opt, flags, parts, main)

    def _lib(self, name, cxx, opt, flags, parts, main):
        """The library under test in one configuration, as a shared object with the interface of abi.h
        (or, with main=..., an executable).  parts: conv text forms handler inspect"""
        d = self.dir('lib-%s-%s%s' % (name, '-'.join(parts), '-' + main[:-4] if main else ''))
        base = [cxx, opt, '-std=c++17', '-w', '-fvisibility=hidden', '-I' + REPO, '-I' + HARN] + list(flags)
        if not main:
            base.append('-fPIC')
        jobs, objs = [], []

        def add(src, obj, *defs):
            o = os.path.join(d, obj)
            jobs.append(base + list(defs) + ['-c', src, '-o', o])
            objs.append(o)
        shards = {'conv': ('shard.cpp', []), 'text': ('shard.cpp', ['-DWITH_TEXT']), 'forms': ('shard_forms.cpp', []), 'handler': ('shard_handler.cpp', []), 'nest': ('shard_nest.cpp', [])}
        for q in parts:
            if q in shards:
                for s in range(7):
                    add(os.path.join(HARN, shards[q][0]), '%s%d.o' % (q, s), '-DSHARD=%d' % s, *shards[q][1])
        if 'conv' in parts:
            add(os.path.join(HARN, 'glue.cpp'), 'g.o')
        if 'text' in parts:
            add(os.path.join(HARN, 'glue_text.cpp'), 'gt.o')
        if 'text' in parts or 'forms' in parts:
            add(os.path.join(REPO, 'fp_to_chars', 'fp_to_chars.cpp'), 'fp.o')
        if set(parts) & {'forms', 'handler', 'inspect', 'nest'}:
            add(os.path.join(HARN, 'glue_misc.cpp'), 'gm.o', *['-D' + q.upper() for q in parts])
        if main:
            add(os.path.join(HARN, main), 'm.o')
        self.compile_all(jobs)
        out = os.path.join(d, 'prog' if main else 'lib.so')
        lf = [f for f in flags if f not in ('-include',) and not f.endswith('.h') and not f.startswith('-D')]
        lf = [f for f in lf if not f.startswith('-I')]
        sh([cxx] + lf + ([] if main else ['-shared', '-Wl,-Bsymbolic']) + objs + ['-o', out, '-lpthread'])
        return out

    def probe(self, name, ops, cxx='clang++', flags=()):
        """Building blocks that are not part of the public interface, each compiled on its own; returns
        (library, operations whose probe does not compile)."""
        d = self.dir('probe-' + name)
        base = [cxx, '-O2', '-std=c++17', '-w', '-fPIC', '-fvisibility=hidden', '-I' + REPO, '-I' + HARN] + list(flags)
        src = os.path.join(HARN, 'probe.cpp')

        def one(o):
            return sh(base + ['-DOP=%d' % o, '-c', src, '-o', os.path.join(d, '%d.o' % o)], ok=None)[0] == 0
        with ThreadPoolExecutor(NCPU) as ex:
            good = dict(zip(ops, ex.map(one, ops)))
        have = [o for o in ops if good[o]]
        if not have:
            return None, list(ops)
        out = os.path.join(d, 'lib.so')
        sh([cxx, '-shared', '-Wl,-Bsymbolic'] + [os.path.join(d, '%d.o' % o) for o in have] + ['-o', out])
        return out, [o for o in ops if not good[o]]

    def java(self):
        src = [os.path.join(SPEC, 'java', f) for f in sorted(os.listdir(os.path.join(SPEC, 'java'))) if f.endswith('.java')]
        out = os.path.join(BUILD, 'java-' + digest(src))
        if not os.path.exists(out):
            tmp = out + '.%d' % os.getpid()
            os.makedirs(tmp)
            sh(['javac', '-cp', JAR, '-d', tmp] + src)
            try:
                os.rename(tmp, out)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
        return out

    # ---- TLC --------------------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, timeout=800, heap='2g', props=()):
        meta = tempfile.mkdtemp(prefix='meta', dir=self.work)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-Djava.io.tmpdir=' + meta, '-Xss64m', '-Xmx' + heap, '-XX:+UseParallelGC' if workers > 1 else '-XX:+UseSerialGC'] + list(props) + \
              ['-cp', ':'.join([self.java(), JAR, CM]), 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE', '-nowarning',
               '-workers', str(workers), '-config', os.path.join(SPEC, cfg), os.path.join(SPEC, module)]
        try:
            rc, out = sh(cmd, timeout=timeout, cwd=self.work, env=e, ok=None)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        gen, dist = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
        return rc, out, gen, dist

    def model(self, module, cfg=None, workers=NCPU, timeout=800, expect_ok=True, note='', heap='8g'):
        """Exhaustive check of a design model (does not involve the repository)."""
        t = time.time()
        rc, out, gen, dist = self.tlc(module + '.tla', cfg or module + '.cfg', workers=workers, timeout=timeout, heap=heap)
        good = rc == 0 and 'No error has been found' in out
        if expect_ok and not good:
            raise CheckError('model %s/%s did not pass (exit %d):\n%s' % (module, cfg, rc, out[-3000:]))
        if not expect_ok and 'is violated' not in out:
            raise CheckError('model %s/%s was expected to be violated (exit %d):\n%s' % (module, cfg, rc, out[-3000:]))
        self.states += dist
        self.trans += gen
        self.models.append({'model': module, 'config': cfg or module + '.cfg', 'states': dist, 'transitions': gen,
                            'outcome': 'no error' if expect_ok else 'violated, as it must be', 'seconds': round(time.time() - t, 1)})
        self.log('model %s/%s: %d states, %.1fs' % (module, cfg or module + '.cfg', dist, time.time() - t))
        return out

    def one_trace(self, path, prop=None, module='Trace', known=False):
        """(number of events, [rejected line numbers]), and with known=True also [(name, line number)] of the outcomes
        the specification lists as known"""
        if os.path.getsize(path) == 0:
            return (0, [], []) if known else (0, [])
        env = {'TRACE': path, 'PROP': prop or self.prop}
        for attempt in (1, 2):
            rc, out, gen, dist = self.tlc(module + '.tla', module + '.cfg', env=env)
            m = re.search(r'<<"TRACE", (\d+), "REJECTED", (\d+)>>', out)
            if m:
                break
        if not m:
            raise CheckError('TLC gave no verdict on %s:\n%s' % (path, out[-3000:]))
        n, bad = int(m.group(1)), int(m.group(2))
        with open(path) as f:
            lines = sum(1 for x in f if x.strip())
        if lines != n or (bad == 0) != (rc == 0):
            raise CheckError('TLC verdict on %s is inconsistent: %s of %d lines, exit %d\n%s' % (path, m.group(0), lines, rc, out[-2000:]))
        self.states += dist
        self.trans += gen
        rj = [int(x) for x in re.findall(r'<<"REJECT", (\d+)>>', out)]
        if known:
            return n, rj, [(a, int(b)) for a, b in re.findall(r'<<"KNOWN", "([\w-]+)", (\d+)>>', out)]
        return n, rj

    def validate(self, paths, replay=None, module='Trace', label='', sample=None):
        """Checks recorded traces against the specification.  replay(event) -> event re-recorded from the real
        code, or None when it cannot be re-run; a rejection counts only if the repetition is rejected too."""
        paths = [p for p in paths if os.path.exists(p) and os.path.getsize(p)]
        t = time.time()
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(lambda p: self.one_trace(p, module=module), paths))
        n = sum(r[0] for r in res)
        self.traces += len(paths)
        self.events += n
        bad = []
        for p, (_, rj) in zip(paths, res):
            if not rj and len(self.samples) >= 6:
                continue
            with open(p) as f:
                ls = f.readlines()
            if len(self.samples) < 6 and ls:
                self.samples.append((sample or shorten)(json.loads(ls[0])))
            bad += [(json.loads(ls[i - 1]), ls[i - 1]) for i in rj]
        self.log('%s: %d traces, %d events, %d rejected, %.1fs' % (label or 'validated', len(paths), n, len(bad), time.time() - t))
        for ev, line in bad[:12]:
            again = line
            if replay is not None:
                r = replay(ev)
                if r is None:
                    raise CheckError('a rejected event could not be reproduced: ' + line[:500])
                again = r
            rp = os.path.join(self.work, 'again.ndjson')
            with open(rp, 'w') as f:
                f.write(again if again.endswith('\n') else again + '\n')
            cnt, rj = self.one_trace(rp, module=module)
            if rj:
                self.rejects.append(again)
            else:
                raise CheckError('a rejection was not repeated: ' + line[:500])
        return n

    # ---- results ----------------------------------------------------------------------------
    def finish(self, level):
        wall = round(time.time() - self.t0, 2)
        cov = {'states': self.states, 'transitions': self.trans, 'traces_validated_against_impl': self.traces,
               'events_validated': self.events, 'models': self.models, 'samples': self.samples[:6]}
        cov.update(self.info)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': self.assume, 'wall_s': wall, 'violations': len(self.rejects)}
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        rc = 0
        if self.rejects:
            rd = os.path.join(EVID, 'replay')
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, '%s-seed%d.ndjson' % (self.prop, self.seed))
            with open(rp, 'w') as f:
                for r in self.rejects:
                    f.write(r if r.endswith('\n') else r + '\n')
            for r in self.rejects[:3]:
                print('  rejected by the specification: ' + explain(json.loads(r.strip().splitlines()[-1])))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            rc = 1
        else:
            print('OK property=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs' % (
                self.prop, self.states, self.trans, self.traces, self.events, wall))
        return rc

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


VARIANTS = os.path.join(HARN, 'variants')


def variant(name):
    return ['-I' + VARIANTS, '-I' + os.path.join(VARIANTS, 'msvc'), '-include', os.path.join(VARIANTS, name + '.h')]


def limbs(a):
    v = 0
    for x in reversed(a):
        v = v << 15 | x
    return v


MODES = ['nearest_to_even', 'nearest_to_odd', 'nearest_toward_plus_infinity', 'nearest_toward_minus_infinity',
         'nearest_toward_zero', 'nearest_away_from_zero', 'nearest_to_even_static_boundary', 'nearest_to_odd_static_boundary',
         'nearest_toward_plus_infinity_static_boundary', 'nearest_toward_minus_infinity_static_boundary',
         'toward_plus_infinity', 'toward_minus_infinity', 'toward_zero', 'away_from_zero']
POLS = ['do_not_care', 'tie_to_even', 'tie_to_odd', 'tie_to_up', 'tie_to_down']


def shorten(ev):
    s = explain(ev)
    return s if len(s) < 700 else s[:700] + '...'


def explain(ev):
    """One readable line for an event."""
    k = ev.get('k')
    if k == 'conv':
        f = ev['f']
        w = 16 if f else 8
        s = '%s 0x%0*x:' % ('double' if f else 'float', w, limbs(ev['b']))
        by = {}
        for i, c in enumerate(ev['r']):
            by.setdefault(c, []).append('%s/%s' % (MODES[i // 5], POLS[i % 5]))
        for c, who in by.items():
            n, sig, e = ev['c'][c - 1]
            s += ' %s%dE%d under %s;' % ('-' if n else '', limbs(sig), e, ', '.join(who[:4]) + (' and %d more' % (len(who) - 4) if len(who) > 4 else ''))
        return s
    if k == 'crash':
        return '%s on %s 0x%x' % (ev.get('what'), 'double' if ev.get('f') else 'float', limbs(ev.get('b', [])))
    return json.dumps(ev)[:600]
