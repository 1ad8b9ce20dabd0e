"""One function per property."""
import json, os, re, struct, sys, subprocess, time
from core import *


def read_crash(d):
    p = os.path.join(d, 'crash.ndjson')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [l for l in f if l.strip().endswith('}')]


def run_exe(cx, cmd, name, chunks, timeout=700):
    """Runs a driver writing into the directory cmd leaves to it; returns (trace paths, info).
    A crash or hang becomes a trace of its own."""
    d = cx.dir(name)
    p = subprocess.run([d if x is OUT else x for x in cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = p.stdout.decode('utf-8', 'replace')
    if p.returncode == 3 and read_crash(d):
        cp = os.path.join(d, 'crashed.ndjson')
        with open(cp, 'w') as f:
            f.write(read_crash(d)[0])
        return [cp], {'crashed': True}
    if p.returncode != 0:
        raise CheckError('driver failed (%d): %s' % (p.returncode, out[-2000:]))
    return [os.path.join(d, 'chunk-%d.ndjson' % i) for i in range(chunks)], json.loads(out.strip().splitlines()[-1])


OUT = object()


def run_drv(cx, drv, lib, name, samples, secs, chunks=NCPU, args=(), timeout=700):
    return run_exe(cx, [drv, lib, OUT, str(cx.seed), str(chunks), str(samples), str(secs), CORPUS] + list(args), name, chunks, timeout)


def replayer(cx, run, fmt=lambda ev: ['%d %d' % (ev['f'], limbs(ev['b']))]):
    """Re-records one event in a fresh process.  run(name, input file) -> trace paths."""
    n = [0]

    def again(ev):
        n[0] += 1
        name = 'again%d' % n[0]
        inp = os.path.join(cx.dir(name), 'in.txt')
        with open(inp, 'w') as f:
            f.write('\n'.join(fmt(ev)) + '\n')
        paths, info = run(name, inp)
        with open(paths[0]) as f:
            l = f.readline()
        return l or None
    return again


def conv_replay(cx, drv, lib):
    return replayer(cx, lambda name, inp: run_drv(cx, drv, lib, name, 0, 0, chunks=1, args=['--inputs', inp]))


CONV = {
    #       samples quick, scout s quick, samples thorough, scout s thorough, models
    'C01': (24000, 22, 160000, 240, ['MCShortest']),
    'C02': (24000, 22, 160000, 240, ['MCShortest']),
    'C03': (24000, 22, 160000, 240, ['MCShortest']),
    'C04': (16000, 22, 100000, 240, ['MCShortest']),
    'C05': (20000, 22, 120000, 240, ['MCShortest']),
    'C06': (20000, 22, 120000, 240, ['MCShortest']),
    'C07': (40000, 22, 300000, 240, []),
    'C08': (40000, 22, 300000, 240, []),
    'C16': (30000, 15, 300000, 240, []),
    'C17': (40000, 22, 300000, 240, []),
}


def follow(cx, paths, per, what='algorithm_model_on_real_formats', which=None):
    """The algorithm machine on recorded inputs of the real formats, against its invariants and the recorded answers."""
    t = time.time()
    subs = []
    for i, p in enumerate(paths):
        with open(p) as f:
            ls = [l for l in f if '"k":"conv"' in l and (which is None or which(json.loads(l)))]
        if not ls:
            continue
        q = os.path.join(cx.work, '%s-%d.ndjson' % (what, i))
        with open(q, 'w') as f:
            f.write(''.join(ls[::max(1, len(ls) // per)][:per]))
        subs.append(q)

    def one(p):
        rc, out, gen, dist = cx.tlc('GrisuTrace.tla', 'GrisuTrace.cfg', env={'TRACE': p})
        m = re.search(r'<<"FOLLOWS", (\d+), "FREE", (\d+), "DIFFERS", (\d+)>>', out)
        if rc != 0 or not m:
            raise CheckError('the algorithm model did not pass on %s:\n%s' % (p, out[-3000:]))
        cx.states += dist
        cx.trans += gen
        seen.update(re.findall(r'^"((?:float|double) .*->.*)"$', out, re.M))
        return [int(x) for x in m.groups()]
    seen = set()
    with ThreadPoolExecutor(NCPU) as ex:
        r = [sum(x) for x in zip(*ex.map(one, subs))] or [0, 0, 0]
    cx.info[what] = {'conversions': sum(r), 'same_as_recorded': r[0], 'other_answer_under_do_not_care': r[1], 'other_answer': r[2], 'decisions': sorted(seen)}
    cx.log('algorithm machine on real inputs: %s, %d different decisions, %.1fs' % (r, len(seen), time.time() - t))


def edges(cx, drv, lib, powers):
    """Recorded without exception: the inputs that between them take every sequence of decisions the algorithm machine was
    seen to take (tools/gen_paths.py), and with powers every power of two of both formats and its two neighbours."""
    with open(os.path.join(CORPUS, 'paths.txt')) as f:
        ps = {tuple(int(x) for x in l.split()) for l in f}
    paths_only = len(ps)
    if powers:
        for f, p, eb in ((0, 23, 8), (1, 52, 11)):
            for b in [x << p for x in range(1, 2 ** eb - 1)] + [1 << i for i in range(p)]:
                ps |= {(f, b + d) for d in (-1, 0, 1) if b + d > 0}
    inp = os.path.join(cx.work, 'edges.txt')
    with open(inp, 'w') as f:
        f.write(''.join('%d %d\n' % x for x in sorted(ps)))
    paths, info = run_drv(cx, drv, lib, 'edges', 0, 0, chunks=1, args=['--inputs', inp])
    if info.get('crashed'):
        return paths
    with open(paths[0]) as f:
        ls = f.readlines()
    if len(ls) < len(ps):
        raise CheckError('only %d of %d edges were recorded' % (len(ls), len(ps)))
    cx.info['decision_sequences_inputs'] = paths_only
    cx.info['powers_of_two_and_neighbours'] = len(ls) - paths_only
    for k in range(NCPU):
        with open('%s.%d' % (paths[0], k), 'w') as f:
            f.writelines(ls[k::NCPU])
    return ['%s.%d' % (paths[0], k) for k in range(NCPU)]


ALGO = {'C05': ['MCGrisu8_quick'], 'C06': ['MCGrisu11_quick']}
ALGO_BAD = ['8_drop-last', '8_zero-endpoint', '8_open-right', '8_no-edge', '11_drop-last', '11_zero-endpoint', '11_open-right', '11_no-edge']


def conv(cx):
    sq, tq, st, tt, models = CONV[cx.prop]
    for m in models:
        cx.model(m)
    for c in ALGO.get(cx.prop, []) if cx.quick else ['MCGrisu8', 'MCGrisu11'] if models else []:
        cx.model('MCGrisu', c + '.cfg')
    if not cx.quick and cx.prop == 'C01':
        cx.model('MCShortest', 'MCShortest_range.cfg')
        cx.model('MCShortest', 'MCShortest_wide.cfg')
    if not cx.quick and cx.prop == 'C03':
        for c in ALGO_BAD:
            cx.model('MCGrisu', 'MCGrisu%s.cfg' % c, expect_ok=False)
    drv = cx.tool('drv', ['drv.cpp'])
    lib = cx.lib('native')
    paths, info = run_drv(cx, drv, lib, 'conv', sq if cx.quick else st, tq if cx.quick else tt)
    cx.log('driver: %s' % json.dumps(info))
    cx.info['driver'] = info
    cx.validate(paths, conv_replay(cx, drv, lib), label='conversions')
    ep = []
    if not cx.rejects:
        ep = edges(cx, drv, lib, cx.prop in ('C02', 'C03', 'C05'))
        cx.validate(ep, conv_replay(cx, drv, lib), label='decision sequences, powers of two')
    if cx.prop == 'C16' and not cx.rejects:
        tdrv, tl = tdrv_tool(cx), cx.lib('native', parts=('conv', 'text'))
        paths, info = run_tdrv(cx, tdrv, 'text', tl, 'text', 16000 if cx.quick else 200000, 6 if cx.quick else 120)
        cx.info['text_driver'] = info
        cx.validate(paths, text_replay(cx, tdrv, 'text', tl), label='text')
    if not cx.rejects and (cx.prop == 'C03' or (models and not cx.quick)):
        follow(cx, paths, 10 if cx.quick else 700)
        with open(os.path.join(CORPUS, 'paths.txt')) as f:
            want = {tuple(int(x) for x in l.split()) for l in f}
        follow(cx, ep, 10**6, 'algorithm_model_on_decision_sequences', lambda e: not (cx.quick or cx.prop != 'C03') or (e['f'], limbs(e['b'])) in want)
    if not cx.quick and not cx.rejects:
        for f, lo, hi in (('f', 1, 0x7f800000),):
            paths, info = run_drv(cx, drv, lib, 'sweep', 0, 240 if cx.prop == 'C03' else 360, args=['--sweep', f, str(lo), str(hi)] + (['--last-first'] if int(cx.prop[1:]) % 2 == 0 else []))
            cx.log('sweep: %s' % json.dumps(info))
            cx.info['float_sweep'] = info
            cx.validate(paths, conv_replay(cx, drv, lib), label='sweep')
    return 'model_checking'


# ---- text -----------------------------------------------------------------------------------
def run_tdrv(cx, tdrv, mode, lib, name, samples, secs, chunks=NCPU, args=(), timeout=700):
    return run_exe(cx, [tdrv, mode, lib, OUT, str(cx.seed), str(chunks), str(samples), str(secs), CORPUS] + list(args), name, chunks, timeout)


def tdrv_tool(cx):
    return cx.tool('tdrv', ['tdrv.cpp'])


def text_replay(cx, tdrv, mode, lib, args=()):
    def fmt(ev):
        if mode != 'buf':
            return ['%d %d' % (ev['f'], limbs(ev['b']))]
        if ev['k'] == 'crash':
            return ['%d %d %d %d %d 4 %d' % (ev['f'], limbs(ev['b']), m, p, z, pl) for m in range(14) for p in range(5) for z in (0, 1) for pl in (8, 9, 0)]
        return ['%d %d %d %d %d %d %d' % (ev['f'], limbs(ev['b']), ev['m'], ev['p'], ev['z'], ev['fill'], ev['place'])]
    return replayer(cx, lambda name, inp: run_tdrv(cx, tdrv, mode, lib, name, 0, 0, chunks=1, args=['--inputs', inp] + list(args)), fmt)


def ryu_lib(cx):
    d = cx.dir('ryu')
    out = os.path.join(d, 'ryu.so')
    src = [os.path.join(REPO, 'benchmark', 'ryu', f) for f in ('f2s.c', 'd2s.c')] + [os.path.join(HARN, 'ryu_glue.c')]
    sh(['gcc', '-O2', '-w', '-fPIC', '-shared', '-fvisibility=hidden', '-I' + os.path.join(REPO, 'benchmark')] + src + ['-o', out])
    return out


TEXT = {  # mode, samples quick, scout quick, samples thorough, scout thorough, models
    'C09': ('text', 40000, 15, 300000, 240, ['MCToChars']),
    'C10': ('text', 40000, 15, 300000, 240, ['MCToChars']),
    'C11': ('buf', 40000, 12, 300000, 240, ['MCToChars']),
    'C20': ('ryu', 60000, 12, 400000, 240, ['MCShortest', 'MCToChars']),
}


def text(cx):
    mode, sq, tq, st, tt, models = TEXT[cx.prop]
    for m in models:
        cx.model(m)
    tdrv, lib = tdrv_tool(cx), cx.lib('native', parts=('conv', 'text'))
    args = ['--ryu', ryu_lib(cx)] if mode == 'ryu' else []
    rep = text_replay(cx, tdrv, mode, lib, args)
    paths, info = run_tdrv(cx, tdrv, mode, lib, 'text', sq if cx.quick else st, tq if cx.quick else tt, args=args)
    cx.log('driver: %s' % json.dumps(info))
    cx.info['driver'] = info
    cx.validate(paths, rep, label=mode)
    sweeps = {'C10': [('f', 0x7f800000, 0x80000000 if not cx.quick else 0x7f880000), ('f', 0xff800000, 0x100000000 if not cx.quick else 0xff880000)],
              'C09': [] if cx.quick else [('f', 1, 0x7f800000)],
              'C20': [('f', 0, 0x100000000)] if not cx.quick else []}.get(cx.prop, [])
    for f, lo, hi in sweeps:
        if cx.rejects:
            break
        paths, info = run_tdrv(cx, tdrv, mode, lib, 'sweep', 0, 400, args=args + ['--sweep', f, str(lo), str(hi)])
        cx.log('sweep %x..%x: %s' % (lo, hi, json.dumps(info)))
        cx.info.setdefault('float_sweeps', []).append(dict(info, lo=lo, hi=hi))
        cx.validate(paths, rep, label='sweep')
    return 'model_checking'


# ---- inspection, handlers, call forms, short decimals ------------------------------------------
def run_mdrv(cx, mdrv, mode, lib, name, samples, secs, chunks=NCPU, args=(), timeout=700):
    return run_exe(cx, [mdrv, mode, lib, OUT, str(cx.seed), str(chunks), str(samples), str(secs), CORPUS] + list(args), name, chunks, timeout)


def decimals_of(f, b):
    """Decimals that read as pattern b (for repeating a crash)."""
    import struct
    x = struct.unpack('<d', struct.pack('<Q', b))[0] if f else struct.unpack('<f', struct.pack('<I', b))[0]
    r = []
    for n in range(1, 16 if f else 7):
        m, e = ('%.*e' % (n - 1, abs(x))).split('e')
        r.append((int(m.replace('.', '')), int(e) - n + 1, 1 if x < 0 else 0))
    return r


def misc_replay(cx, mdrv, mode, lib):
    def fmt(ev):
        if ev['k'] == 'crash':
            b, f = limbs(ev['b']), ev['f']
            if mode == 'short':
                return ['%d %d %d %d 0' % (f, s, E, g) for s, E, g in decimals_of(f, b)]
            ks = range(8) if mode == 'handler' else (0,)
            return ['%d %d %d %d %d' % (f, b, m, t, k) for m in range(14) for t in range(5) for k in ks]
        if mode == 'short':
            return ['%d %d %d %d 0' % (ev['f'], limbs(ev['s']), ev['E'], ev['g'])]
        return ['%d %d %d %d %d' % (ev['f'], limbs(ev['b']), ev.get('m', 0), ev.get('p', 0), ev.get('kind', 0))]
    return replayer(cx, lambda name, inp: run_mdrv(cx, mdrv, mode, lib, name, 0, 0, chunks=1, args=['--inputs', inp]), fmt)


MISC = {  # mode, parts, samples quick, scout quick, samples thorough, scout thorough, models
    'C14': ('insp', ('inspect',), 40000, 8, 300000, 100, ['MCInspect']),
    'C18': ('short', ('conv', 'text'), 40000, 12, 300000, 240, ['MCShortest', 'MCToChars']),
    'C19': ('handler', ('handler',), 40000, 8, 300000, 200, []),
    'C23': ('forms', ('forms',), 30000, 10, 200000, 240, []),
}


def misc(cx):
    mode, parts, sq, tq, st, tt, models = MISC[cx.prop]
    for m in models:
        cx.model(m)
    mdrv, lib = cx.tool('mdrv', ['mdrv.cpp']), cx.lib('native', parts=parts)
    rep = misc_replay(cx, mdrv, mode, lib)
    paths, info = run_mdrv(cx, mdrv, mode, lib, mode, sq if cx.quick else st, tq if cx.quick else tt)
    cx.log('driver: %s' % json.dumps(info))
    cx.info['driver'] = info
    cx.validate(paths, rep, label=mode)
    sweeps = {'C14': [('f', 0, 0x100000000)], 'C18': [('f', 1, 1000000)] + ([] if cx.quick else [('d', 1, 1000000)])}.get(cx.prop, [])
    for f, lo, hi in sweeps:
        if cx.rejects:
            break
        paths, info = run_mdrv(cx, mdrv, mode, lib, 'sweep' + f, 0, 400, args=['--sweep', f, str(lo), str(hi)] + (['--last-first'] if int(cx.prop[1:]) % 2 == 0 else []))
        cx.log('sweep %x..%x: %s' % (lo, hi, json.dumps(info)))
        cx.info.setdefault('sweeps', []).append(dict(info, format=f, lo=lo, hi=hi))
        cx.validate(paths, rep, label='sweep')
    return 'model_checking'


# ---- arithmetic and the table of powers ---------------------------------------------------------
def run_adrv(cx, adrv, mode, lib, name, samples, secs, chunks=NCPU, args=(), timeout=700):
    return run_exe(cx, [adrv, mode, lib, OUT, str(cx.seed), str(chunks), str(samples), str(secs), '0' if cx.quick else '1'] + list(args), name, chunks, timeout)


def through_conversions(cx, bl):
    """Building blocks that cannot be called (renamed, merged, given another signature) are judged by what conversions make of them."""
    drv = cx.tool('drv', ['drv.cpp'])
    cx.info['judged_through_conversions'] = [b[0] for b in bl]
    for name, cxx, flags in bl:
        lib = cx.lib('conv-' + name, cxx=cxx, flags=flags, optional=name != 'native')
        if lib is None:
            continue
        paths, info = run_drv(cx, drv, lib, 'through-' + name, max(3500, 10000 // len(bl)) if cx.quick else 100000, (40 if cx.quick else 200) / len(bl))
        cx.info.setdefault('conversions', {})[name] = info
        cx.validate(paths, conv_replay(cx, drv, lib), label='conversions ' + name)
        if cx.rejects:
            break


def arith(cx):
    cx.model('MCArith')
    adrv = cx.tool('adrv', ['adrv.cpp'])
    builds = [('native', 'clang++', []), ('gcc', 'g++', []), ('noint128', 'clang++', variant('noint128')), ('portable', 'g++', variant('portable')),
              ('msvc', 'clang++', variant('msvc'))]
    if not cx.quick:
        builds += [('portable-clang', 'clang++', variant('portable')), ('msvc-gcc', 'g++', variant('msvc')), ('noint128-gcc', 'g++', variant('noint128'))]
    missed = []
    for i, (name, cxx, flags) in enumerate(builds):
        lib, missing = cx.probe(name, range(12), cxx, flags)
        if missing:
            cx.info.setdefault('not_probed', {})[name] = missing
            missed.append(name)
        if lib is None:
            continue
        sq, tq = (18000, 1.5) if cx.quick else (180000, 30)
        paths, info = run_adrv(cx, adrv, 'arith', lib, 'arith-' + name, sq, tq)
        cx.info.setdefault('builds', {})[name] = info

        def again(ev, lib=lib, name=name):
            if ev['k'] == 'crash':
                p, _ = run_adrv(cx, adrv, 'arith', lib, 'recrash-' + name, sq, tq)
                return open(p[0]).readline()
            r = replayer(cx, lambda n, inp: run_adrv(cx, adrv, 'arith', lib, n, 0, 0, chunks=1, args=['--inputs', inp]),
                         lambda e: ['%d %d %d %d %d' % (e['o'], limbs(e['x']), limbs(e['y']) >> 64, limbs(e['y']) & (2**64 - 1), e['n'])])
            return r(ev)
        cx.validate(paths, again, label='arithmetic ' + name)
        if cx.rejects:
            break
    if len(missed) and not cx.rejects:
        through_conversions(cx, [b for b in builds if b[0] in missed])
    return 'model_checking'


def precision(cx):
    """The table's precision and the integer shortcuts suffice for every significand; with fewer bits they do not."""
    for f in ('float', 'double'):
        cx.model('MCPrecision', 'MCPrecision_%s.cfg' % f)
    cx.model('MCPrecision', 'MCPrecision_short.cfg', expect_ok=False)


def table(cx):
    precision(cx)
    adrv = cx.tool('adrv', ['adrv.cpp'])
    lib, missing = cx.probe('table', (20, 21))
    if missing:
        cx.info['not_probed'] = missing
    if lib is not None:
        paths, info = run_adrv(cx, adrv, 'table', lib, 'table', 0, 0)
        cx.info['table'] = info

        def again(ev):
            p, _ = run_adrv(cx, adrv, 'table', lib, 'again', 0, 0, chunks=1)
            for l in open(p[0]):
                e = json.loads(l)
                if all(e.get(k) == ev.get(k) for k in ('k', 'f', 'p')):
                    return l
            return None
        cx.validate(paths, again, label='table of powers')
    if missing and not cx.rejects:
        through_conversions(cx, [('native', 'clang++', [])])
    return 'model_checking'


# ---- many builds -------------------------------------------------------------------------------
def records(path):
    with open(path, 'rb') as f:
        d = f.read()
    return [(d[i], int.from_bytes(d[i + 1:i + 9], 'little')) for i in range(0, len(d), 9)]


def put_records(path, rs):
    with open(path, 'wb') as f:
        for fm, b in rs:
            f.write(bytes([fm]) + b.to_bytes(8, 'little'))


def crash_event(what, f, b):
    return json.dumps({'k': 'crash', 'what': what, 'f': f, 'b': to_limbs(b)})


def to_limbs(v):
    r = []
    while v:
        r.append(v & 32767)
        v >>= 15
    return r


class Crash(Exception):
    pass


def rowdump(cx, prog, mode, inp, name, rs, env=None, timeout=700):
    """Runs one build on the inputs; the raw output, or Crash with an event."""
    out = os.path.join(cx.dir('rows'), name)
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run([prog, mode, inp, out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e)
    err = p.stderr.decode('utf-8', 'replace')
    m = re.search(r'CRASH (\d+) (\d+)', err)
    if m:
        f, b = rs[int(m.group(2))]
        raise Crash(crash_event('signal %s in build %s: %s' % (m.group(1), name, first_report(err)), f, b))
    if p.returncode != 0:
        raise CheckError('build %s failed (%d): %s' % (name, p.returncode, err[-1500:]))
    with open(out, 'rb') as fh:
        d = fh.read()
    os.unlink(out)
    return d


def first_report(err):
    ls = [l for l in err.splitlines() if 'ssertion' in l or 'ERROR' in l or 'runtime error' in l or 'WARNING' in l]
    return ls[0][:200] if ls else ''


def cfg_event(f, b, names, blocks):
    c, t, rows, texts = [], [], [], []
    cd, td = {}, {}

    def idx(d, l, x):
        if x not in d:
            l.append(x)
            d[x] = len(l)
        return d[x]
    memo = {}
    for blk in blocks:
        if blk not in memo:
            row = []
            fin = (b & (2**63 - 1 if f else 2**31 - 1)) not in (0,) and (b & (2**63 - 1 if f else 2**31 - 1)) <= (0x7fefffffffffffff if f else 0x7f7fffff)
            if fin:
                for i in range(70):
                    sig, ex, ng = struct.unpack_from('<QiI', blk, 16 * i)
                    row.append(idx(cd, c, (ng, sig, ex)))
            txt = []
            for i in range(70):
                n = blk[1120 + 32 * i]
                txt.append(idx(td, t, bytes(blk[1121 + 32 * i:1121 + 32 * i + min(n, 31)])))
            memo[blk] = (row, txt)
        rows.append(memo[blk][0])
        texts.append(memo[blk][1])
    return json.dumps({'k': 'cfg', 'f': f, 'b': to_limbs(b), 'builds': names, 'c': [[x[0], to_limbs(x[1]), x[2]] for x in c],
                       't': [list(x) for x in t], 'rows': rows, 'texts': texts}, separators=(',', ':'))


def cpu_flags():
    try:
        with open('/proc/cpuinfo') as f:
            have = set(re.search(r'^flags\s*:(.*)$', f.read(), re.M).group(1).split())
    except (OSError, AttributeError):
        return []
    return [o for o, n in (('-mbmi', 'bmi1'), ('-mbmi2', 'bmi2'), ('-mavx2', 'avx2'), ('-madx', 'adx'), ('-mlzcnt', 'abm'), ('-mpopcnt', 'popcnt')) if n in have]


CPU = cpu_flags()
BUILDS = [  # name, compiler, optimisation, flags
    ('clang-O2', 'clang++', '-O2', []),
    ('gcc-O3-ndebug', 'g++', '-O3', ['-DNDEBUG']),
    ('clang-O0', 'clang++', '-O0', []),
    ('gcc-m32-O2', 'g++', '-O2', ['-m32']),
    ('portable-clang-O2', 'clang++', '-O2', variant('portable')),
    ('noint128-gcc-O1', 'g++', '-O1', variant('noint128')),
    ('msvc-clang-O1', 'clang++', '-O1', variant('msvc')),
    ('clang-O1-pattern', 'clang++', '-O1', ['-ftrivial-auto-var-init=pattern', '-funsigned-char']),
    ('clang-cxx20-O3', 'clang++', '-O3', ['-std=c++20', '-DNDEBUG'] + CPU),
    ('msvc32-gcc-O1', 'g++', '-O1', ['-std=c++20'] + variant('msvc32')),
]
BUILDS_MORE = [
    ('gcc-O0', 'g++', '-O0', []),
    ('gcc-Os-ndebug', 'g++', '-Os', ['-DNDEBUG']),
    ('clang-O3-ndebug', 'clang++', '-O3', ['-DNDEBUG']),
    ('clang-m32-O2-ndebug', 'clang++', '-O2', ['-m32', '-DNDEBUG']),
    ('gcc-m32-O0', 'g++', '-O0', ['-m32']),
    ('portable-gcc-O3', 'g++', '-O3', ['-DNDEBUG'] + variant('portable')),
    ('msvc-gcc-O2', 'g++', '-O2', variant('msvc')),
    ('noint128-clang-O3', 'clang++', '-O3', variant('noint128')),
    ('clang-O2-cxx20-zero', 'clang++', '-O2', ['-std=c++20', '-ftrivial-auto-var-init=zero']),
    ('gcc-O2-native', 'g++', '-O2', ['-std=c++23', '-flto'] + CPU),
]


def builds(cx):
    bl = BUILDS + ([] if cx.quick else BUILDS_MORE)
    gi = cx.tool('geninputs', ['geninputs.cpp'])
    inp = os.path.join(cx.work, 'inputs.bin')
    sh([gi, inp, str(cx.seed), str(120000 if cx.quick else 3000000), CORPUS])
    rs = records(inp)
    names = [b[0] for b in bl]
    progs = [cx.lib(n, cxx=c, opt=o, flags=fl, parts=('conv', 'text'), main='rowdump.cpp', optional=True) for n, c, o, fl in bl]
    names, progs = [n for n, q in zip(names, progs) if q], [q for q in progs if q]
    if len(progs) < 4:
        raise CheckError('only %d of %d builds compile' % (len(progs), len(bl)))
    cx.log('%d builds' % len(progs))
    ev = []

    def many(mode, path, recs):
        with ThreadPoolExecutor(NCPU) as ex:
            return list(ex.map(lambda k: rowdump(cx, progs[k], mode, path, names[k], recs), range(len(progs))))
    try:
        hs = many('hash', inp, rs)
        odd = []
        for i in range(len(rs)):
            if any(h[8 * i:8 * i + 8] != hs[0][8 * i:8 * i + 8] for h in hs[1:]):
                odd.append(i)
        cx.info['builds'] = names
        cx.info['compared'] = {'inputs': len(rs), 'differing': len(odd)}
        step = max(1, len(rs) // (2500 if cx.quick else 20000))
        pick = sorted(set(odd[:60]) | set(range(0, len(rs), step)) | set(range(20)))
        sub = os.path.join(cx.work, 'sub.bin')
        put_records(sub, [rs[i] for i in pick])
        fs = many('full', sub, [rs[i] for i in pick])
        R = 70 * 48
        for j, i in enumerate(pick):
            ev.append(cfg_event(rs[i][0], rs[i][1], names, [f[R * j:R * j + R] for f in fs]))
    except Crash as e:
        ev = [str(e)]
    cx.log('compared %d inputs' % len(rs))
    paths = []
    for k in range(NCPU):
        p = os.path.join(cx.work, 'cfg-%d.ndjson' % k)
        with open(p, 'w') as f:
            f.write(''.join(x + '\n' for x in ev[k::NCPU]))
        paths.append(p)

    def again(e):
        sub = os.path.join(cx.work, 'again.bin')
        one = [(e['f'], limbs(e['b']))]
        put_records(sub, one)
        try:
            return cfg_event(e['f'], limbs(e['b']), names, many('full', sub, one))
        except Crash as x:
            return str(x)
    cx.validate(paths, again, label='builds')
    return 'model_checking'


# ---- undefined behaviour, assertions, termination ------------------------------------------------
UB = ['-fsanitize=undefined,local-bounds', '-fsanitize-trap=all']


def safety(cx):
    drv, tdrv = cx.tool('drv', ['drv.cpp']), tdrv_tool(cx)
    sets = [('ub-native', 'clang++', '-O1', UB), ('ub-portable', 'clang++', '-O1', UB + variant('portable'))]
    if not cx.quick:
        sets += [('ub-gcc', 'g++', '-O1', ['-fsanitize=undefined', '-fsanitize-undefined-trap-on-error']), ('ub-msvc', 'clang++', '-O1', UB + variant('msvc')),
                 ('ub-ndebug', 'clang++', '-O2', UB + ['-DNDEBUG'])]
    sq, tq, ts = (16000, 9, 6) if cx.quick else (60000, 75, 40)
    for name, cxx, opt, fl in sets:
        lib = cx.lib(name, cxx=cxx, opt=opt, flags=fl, parts=('conv', 'text'), optional=name != 'ub-native')
        if lib is None:
            continue
        paths, info = run_drv(cx, drv, lib, 'conv-' + name, sq // 2, tq)
        cx.log('%s: %s' % (name, json.dumps(info)))
        cx.info.setdefault('builds', {})[name] = {'conversions': info}
        cx.validate(paths, conv_replay(cx, drv, lib), label=name)
        if not cx.rejects:
            paths, info = run_tdrv(cx, tdrv, 'text', lib, 'text-' + name, sq // 2, ts)
            cx.info['builds'][name]['text'] = info
            cx.validate(paths, text_replay(cx, tdrv, 'text', lib), label=name + ' text')
        if cx.rejects:
            return 'model_checking'
    # memory errors and reads of uninitialised memory: whole programs
    gi = cx.tool('geninputs', ['geninputs.cpp'])
    inp = os.path.join(cx.work, 'inputs.bin')
    sh([gi, inp, str(cx.seed + 1), str(20000 if cx.quick else 400000), CORPUS])
    rs = records(inp)
    progs = [(n, cx.lib(n, opt='-O1', flags=['-fsanitize=' + w], parts=('conv', 'text'), main='rowdump.cpp', optional=True)) for n, w in (('asan', 'address'), ('msan', 'memory'))]
    progs = [x for x in progs if x[1]]
    env = {'ASAN_OPTIONS': 'abort_on_error=1:handle_segv=0:handle_abort=0:detect_leaks=0', 'MSAN_OPTIONS': 'abort_on_error=1:handle_segv=0:handle_abort=0'}
    ev = []

    def one(np, path, recs, name):
        try:
            d = rowdump(cx, np[1], 'full' if len(recs) < 500 else 'hash', path, name, recs, env=env)
            return d
        except Crash as e:
            return str(e)
    n = NCPU // 2
    cuts = []
    for k in range(n):
        part = rs[k::n]
        p = os.path.join(cx.work, 'part%d.bin' % k)
        put_records(p, part)
        cuts.append((p, part))
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda a: one(a[0], a[1][0], a[1][1], a[2]), [(np, c, '%s-%d' % (np[0], k)) for np in progs for k, c in enumerate(cuts)]))
    ev = [r for r in res if isinstance(r, str)]
    cx.info['sanitized_programs'] = {'inputs': len(rs), 'programs': [n for n, _ in progs], 'reports': len(ev)}
    cx.log('address and memory sanitizer: %d inputs, %d reports' % (len(rs), len(ev)))
    if ev:
        p = os.path.join(cx.work, 'san.ndjson')
        with open(p, 'w') as f:
            f.write(''.join(x + '\n' for x in ev[:4]))

        def again(e):
            q = os.path.join(cx.work, 'again.bin')
            recs = [(e['f'], limbs(e['b']))]
            put_records(q, recs)
            r = [one(np, q, recs, 'again-' + np[0]) for np in progs]
            r = [x for x in r if isinstance(x, str)]
            return r[0] if r else None
        cx.validate([p], again, label='sanitizer reports')
    return 'model_checking'


# ---- sessions ---------------------------------------------------------------------------------
def schedules(cx):
    """The schedules of the model MCSchedule, as lines of thread/how pairs."""
    out = cx.model('MCSchedule', workers=1, note='schedules')
    ls = set()
    for m in re.findall(r'<<\s*"SCHEDULE",\s*<<([^<>]*)>>,\s*<<([^<>]*)>>\s*>>', out):
        ls.add(' '.join(t.strip() + h.strip().strip('"')[0] for t, h in zip(m[0].split(','), m[1].split(','))))
    if not ls:
        raise CheckError('the schedule model printed no schedules')
    p = os.path.join(cx.work, 'schedules.txt')
    with open(p, 'w') as f:
        f.write('\n'.join(sorted(ls)) + '\n')
    return p, len(ls)


def session_excerpt(lines, rej):
    """The recorded session around a rejected event, with the answers alone it is judged by."""
    b = max([i for i in range(rej) if json.loads(lines[i])['k'] == 'begin'] or [0])
    part = lines[b:rej]
    used = {json.loads(l).get('a') for l in part}
    return ''.join([l for l in lines if l.startswith('{"k":"alone"') and json.loads(l)['a'] in used and lines.index(l) < b] + part)


def validate_sessions(cx, paths, label):
    t = time.time()
    paths = [p for p in paths if os.path.getsize(p)]
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda p: cx.one_trace(p, module='SessionTrace'), paths))
    n, bad = sum(r[0] for r in res), 0
    cx.traces += len(paths)
    cx.events += n
    for p, (_, rj) in zip(paths, res):
        bad += len(rj)
        with open(p) as f:
            ls = f.readlines()
        if len(cx.samples) < 6:
            k = next((i for i, l in enumerate(ls) if '"begin"' in l), 0)
            cx.samples.append(os.path.basename(p) + ': ' + ' '.join(x.strip() for x in ls[k:k + 7])[:700])
        for r in rj[:3]:
            rp = os.path.join(cx.work, 'again.ndjson')
            with open(rp, 'w') as f:
                f.write(session_excerpt(ls, r))
            if cx.one_trace(rp, module='SessionTrace')[1]:
                cx.rejects.append(open(rp).read())
            else:
                raise CheckError('a rejection was not repeated: ' + ls[r - 1][:300])
    cx.log('%s: %d traces, %d events, %d rejected, %.1fs' % (label, len(paths), n, bad, time.time() - t))


def session(cx):
    cx.model('MCSession')
    for bad in ('thread', 'global', 'cache', 'busy'):
        cx.model('MCSession', 'MCSession_%s.cfg' % bad, expect_ok=False)
    sched, n = schedules(cx)
    sdrv, lib = cx.tool('sdrv', ['sdrv.cpp']), cx.lib('native', parts=('conv', 'text', 'nest'))
    d = cx.dir('sessions')
    p = subprocess.run([sdrv, lib, d, str(cx.seed), '20' if cx.quick else '400', CORPUS, sched] + ([] if cx.quick else ['--more']),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    out = p.stdout.decode('utf-8', 'replace')
    crash = read_crash(d)
    if p.returncode == 3 and crash:
        cp = os.path.join(d, 'crashed.ndjson')
        with open(cp, 'w') as f:
            f.write(crash[0])
        validate_sessions(cx, [cp], 'crash')
        return 'model_checking'
    if p.returncode != 0:
        raise CheckError('session driver failed (%d): %s' % (p.returncode, out[-2000:]))
    info = json.loads(out.strip().splitlines()[-1])
    cx.info['driver'] = info
    cx.log('driver: %s' % json.dumps(info))
    validate_sessions(cx, [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.startswith('trace-')], 'sessions')
    if cx.rejects:
        return 'model_checking'
    # before and after main
    prog = cx.lib('early', parts=('conv', 'text', 'nest'), main='early.cpp')
    eps = []
    for i in range(1 if cx.quick else NCPU):
        de = cx.dir('early%d' % i)
        p = subprocess.run([prog, de, str(cx.seed + i), '2000' if cx.quick else '5000', CORPUS], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        out = p.stdout.decode('utf-8', 'replace')
        m = re.search(r'LOST ([a-z ]+) (\d) (\d+)', out)
        eps.append(os.path.join(de, 'trace-early.ndjson'))
        if m:
            with open(eps[-1], 'w') as f:
                f.write(crash_event('no answer ' + m.group(1), int(m.group(2)), int(m.group(3))) + '\n')
        elif p.returncode != 0:
            raise CheckError('program converting before main failed (%d): %s' % (p.returncode, out[-1000:]))
        else:
            cx.info['before_and_after_main'] = json.loads(out.strip().splitlines()[-1])
    validate_sessions(cx, eps, 'before and after main')
    if cx.rejects:
        return 'model_checking'
    # data races
    prog = cx.lib('tsan', opt='-O1', flags=['-fsanitize=thread', '-g1'], parts=('conv', 'text', 'nest'), main='tsanrun.cpp', optional=True)
    if prog is None:
        return 'model_checking'
    p = subprocess.run([prog, str(cx.seed), '4' if cx.quick else '60', CORPUS], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300,
                       env=dict(os.environ, TSAN_OPTIONS='exitcode=66 halt_on_error=1'))
    out = p.stdout.decode('utf-8', 'replace')
    if 'WARNING: ThreadSanitizer: data race' in out:
        where = [l.strip()[:160] for l in out.splitlines() if re.search(r'grisu_exact|fp_to_chars', l)][:3]
        rp = os.path.join(cx.work, 'race.ndjson')
        with open(rp, 'w') as f:
            f.write(json.dumps({'k': 'race', 'what': 'data race between conversions', 'where': where}) + '\n')
        validate_sessions(cx, [rp], 'race')
    elif p.returncode != 0:
        cx.info['race_detector'] = 'did not run: ' + out[-300:]
    else:
        cx.info['race_detector'] = json.loads(out.strip().splitlines()[-1])
    return 'model_checking'


def nat(v):
    o = []
    while v:
        o.append(v & 32767)
        v >>= 15
    return o


def tool_events(d):
    """What the offline programs wrote and printed, as events.  d: a directory with test_results/ and perhaps stdout."""
    ev = []
    for f, name in enumerate(('binary32', 'binary64')):
        t = os.path.join(d, 'test_results', name + '_generated_cache.txt')
        if os.path.exists(t):
            s = open(t).read()
            rows = re.findall(r'\{\s*0x(\w+)\s*,\s*0x(\w+)\s*\}', s) if f else [('0', x) for x in re.findall(r'0x(\w+)', s)]
            ev.append({'k': 'table', 'f': f, 'n': len(rows)})
            ev += [{'k': 'entry', 'f': f, 'i': i, 'v': nat(int(hi, 16) << 64 | int(lo, 16))} for i, (hi, lo) in enumerate(rows)]
        for neg, sign in ((1, 'negative'), (0, 'positive')):
            t = os.path.join(d, 'test_results', '%s_%s_k.csv' % (name, sign))
            if os.path.exists(t):
                rows = [x.split(',') for x in open(t).read().split()[1:]]
                ev.append({'k': 'bitscount', 'f': f, 'neg': neg, 'n': len(rows)})
                ev += [{'k': 'bits', 'f': f, 'e': int(a), 'r': int(b)} for a, b in rows]
    t = os.path.join(d, 'stdout')
    if os.path.exists(t):
        s = open(t).read()
        for fn in ('floor_log10_pow2', 'floor_log2_pow10', 'floor_log5_pow2'):
            m = re.search(fn + r' is valid up to \|e\| <= (\d+)', s)
            ev.append({'k': 'valid', 'fn': fn, 'n': int(m.group(1)) if m else 0})
        for what in ('delta computation', 'correct rounding bound computation', 'Incorrect rounding removal'):
            for name in ('binary32', 'binary64'):
                ev.append({'k': 'claim', 'what': '%s for %s' % (what, name), 'ok': 1 if '%s for %s: verified' % (what, name) in s else 0})
    return ev


def tools(cx):
    """The repository's offline programs, and the big integers and the min-max Euclid they rest on."""
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        listed = dict(re.findall(r'^known: property=C24 (\S+) (.*)$', f.read(), re.M))
    cx.model('MCEuclid', workers=4)
    cx.model('MCTools', workers=3)
    d = cx.dir('tools')
    flags = ['-std=c++17', '-O1', '-w', '-I' + REPO, '-I' + HARN]
    big = os.path.join(d, 'bigrun')
    runs = [('64', [], False), ('32', ['-m32', '-DTOOLRUN_CACHE'], True)]
    cx.compile_all([['clang++'] + flags + ['-fsanitize=undefined,bounds', '-fsanitize-trap=undefined', os.path.join(HARN, 'bigrun.cpp'), '-o', big]] +
                   [['clang++'] + flags + ['-fwrapv'] + fl + [os.path.join(HARN, 'toolrun.cpp'), '-o', os.path.join(d, 'toolrun' + n)] for n, fl, _ in runs])
    # the programs
    ev = [dict(e, src='committed') for e in tool_events(REPO)]
    for n, fl, gen in runs:
        w = os.path.join(cx.work, 'tools-' + n)
        os.makedirs(os.path.join(w, 'test_results'))
        rc, out = sh(['timeout', '300', os.path.join(d, 'toolrun' + n)], cwd=w, ok=None, timeout=320)
        with open(os.path.join(w, 'stdout'), 'w') as f:
            f.write(out)
        if rc:
            ev.append({'k': 'claim', 'what': 'the %s-bit programs run to their end (exit %d)' % (n, rc), 'ok': 0, 'src': n})
        got = [dict(e, src=n) for e in tool_events(w)]
        want = 9 if not gen else 11
        if not rc and sum(e['k'] in ('table', 'bitscount', 'valid', 'claim') for e in got) < want + 4:
            ev.append({'k': 'claim', 'what': 'the %s-bit programs write all their results' % n, 'ok': 0, 'src': n})
        ev += got
    cx.info['program_results'] = len(ev)
    paths = []
    for k in range(NCPU):
        p = os.path.join(cx.work, 'tools-%d.ndjson' % k)
        with open(p, 'w') as f:
            f.write(''.join(json.dumps(e) + '\n' for e in ev[k::NCPU]))
        paths.append(p)
    cx.validate(paths, lambda e: json.dumps(e), module='ToolTrace', label='programs')
    # the big integers
    out = os.path.join(cx.work, 'big')
    os.makedirs(out)
    size = ['8', '8000', '800'] if cx.quick else ['64', '256000', '25600']
    rc, txt = sh([big, out, str(cx.seed)] + size, ok=None, timeout=400)
    if os.path.exists(os.path.join(out, 'crash.ndjson')):
        cx.rejects.append(open(os.path.join(out, 'crash.ndjson')).readline())
        return 'model_checking'
    if rc:
        raise CheckError('bigrun failed (%d): %s' % (rc, txt[-500:]))
    cx.info['big_integers'] = json.loads(txt)
    paths = [os.path.join(out, 'chunk-%d.ndjson' % i) for i in range(int(size[0]))]
    t = time.time()
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda p: cx.one_trace(p, module='ToolTrace', known=True), paths))
    seen = {}
    for p, (n, rj, kn) in zip(paths, res):
        cx.traces += 1
        cx.events += n
        ls = open(p).readlines() if rj or kn else []
        for name, i in kn:
            seen[name] = seen.get(name, 0) + 1
            if name not in listed and seen[name] == 1:
                rj = rj + [i]
        for i in rj[:3]:
            j = i - 1
            while j > 0 and '"k":"begin"' not in ls[j]:
                j -= 1
            cx.rejects.append(''.join(ls[j:i]) if '"k":"op"' in ls[i - 1] else ls[i - 1])
    cx.info['known_outcomes'] = seen
    cx.log('big integers: %d traces, %.1fs, known outcomes %s' % (len(paths), time.time() - t, seen))
    for name in sorted(seen):
        if name in listed:
            print('KNOWN-FINDING: property=C24 %s %s' % (name, listed[name]))
    return 'model_checking'


CHECKS = {p: conv for p in CONV}
CHECKS.update({p: text for p in TEXT})
CHECKS.update({p: misc for p in MISC})
CHECKS.update({'C12': builds, 'C13': session, 'C15': safety, 'C21': table, 'C22': arith, 'C24': tools})


def main(argv):
    prop = argv[0]
    tier = 'thorough' if '--thorough' in argv else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cx = Ctx(prop, tier, seed)
    try:
        level = CHECKS[prop](cx)
        return cx.finish(level)
    except CheckError as e:
        print('CHECK ERROR property=%s: %s' % (prop, e))
        return 2
    finally:
        cx.close()
