#!/usr/bin/env python3
"""Writes corpus/paths.txt: inputs on which the algorithm machine (spec/GrisuPaths) takes every sequence of decisions it was
seen to take on COUNT inputs of the generators.  gen_paths.py COUNT SEED [JOBS].  Nothing here looks at the repository."""
import json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import core
count, seed, jobs = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 8
CORPUS = os.path.join(core.VERIF, 'corpus')
OUT = os.path.join(CORPUS, 'paths.txt')


def limbs(v):
    o = []
    while v:
        o.append(v & 32767)
        v >>= 15
    return o


cx = core.Ctx('paths', 'thorough', seed)
try:
    gi = cx.tool('geninputs', ['geninputs.cpp'])
    raw = os.path.join(cx.work, 'inputs.bin')
    subprocess.run([gi, raw, str(seed), str(count), CORPUS], check=True)
    data = open(raw, 'rb').read()
    ins = []
    if os.path.exists(OUT):
        ins = [tuple(int(x) for x in l.split()) for l in open(OUT)]
    old = len(ins)
    for i in range(0, len(data), 9):
        f = data[i]
        b = int.from_bytes(data[i + 1:i + 9], 'little') & (2 ** 63 - 1 if f else 2 ** 31 - 1)
        if 0 < b < (0x7ff << 52 if f else 0xff << 23):
            ins.append((f, b))
    ins = list(dict.fromkeys(ins))
    parts = [ins[k::jobs] for k in range(jobs)]

    def one(k):
        p = os.path.join(cx.work, 'in%d.ndjson' % k)
        with open(p, 'w') as o:
            o.writelines(json.dumps({'f': f, 'b': limbs(b)}) + '\n' for f, b in parts[k])
        rc, out, gen, dist = cx.tlc('GrisuPaths.tla', 'GrisuPaths.cfg', env={'TRACE': p}, timeout=6000)
        if rc:
            raise SystemExit(out[-3000:])
        return {m.group(2): parts[k][int(m.group(1)) - 1] for m in re.finditer(r'^"(\d+) (<<.*>>)"$', out, re.M)}
    found = {}
    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(one, range(jobs)):
            for path, inp in r.items():
                found.setdefault(path, set()).add(inp)
    # few inputs that between them take every sequence
    by = {}
    for path, s in found.items():
        for inp in s:
            by.setdefault(inp, set()).add(path)
    todo, chosen = set(found), []
    while todo:
        inp = max(by, key=lambda x: (len(by[x] & todo), x))
        chosen.append(inp)
        todo -= by.pop(inp)
        by = {k: v for k, v in by.items() if v & todo}
    with open(OUT, 'w') as o:
        o.writelines('%d %d\n' % x for x in sorted(chosen))
    print('%d inputs, %d sequences, %d inputs chosen' % (len(ins), len(found), len(chosen)))
finally:
    cx.close()
