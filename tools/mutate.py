#!/usr/bin/env python3
"""Development aid: how many small edits of the conversion code do the drivers notice?
   mutate.py FILE LO HI MODE SECS OUT [STEP]      MODE: conv | text
A mutant is killed when a driver flags or crashes; survivors are printed for a human to judge."""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
rel, lo, hi, mode, secs, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5], sys.argv[6]
W = out + '.d'
os.makedirs(W, exist_ok=True)
R = os.path.join(W, 'repo')
if os.path.exists(R):
    shutil.rmtree(R)
shutil.copytree('/repo', R, ignore=shutil.ignore_patterns('.git', 'build'))
os.environ['VERIF_REPO'] = R
import core, checks
src = open('/repo/' + rel).read().split('\n')
OPS = [(r'(?<![<>=!\-&|])<(?![<=>])(?=\s)', '<='), (r'<=', '<'), (r'(?<![<>\-=])>(?![>=])(?=\s)', '>='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='),
       (r'&&', '||'), (r'\|\|', '&&'), (r'(?<=\s)\+(?=\s)', '-'), (r'(?<=\s)-(?=\s)', '+'), (r'\+=', '-='), (r'-=', '+='), (r'\+\+', '--'), (r'(?<!-)--(?!-)', '++'),
       (r'>>', '<<'), (r'(?<![\w.])(\d+)(?![\w.])', lambda m: str(int(m.group(1)) + 1)), (r'(?<![\w.])([1-9]\d*)(?![\w.])', lambda m: str(int(m.group(1)) - 1)),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'(?<=\()!(?=\w)', ''), (r'(?<=\s)/(?=\s)', '*'), (r'(?<=\s)%(?=\s)', '/'), (r'\*=', '/='), (r'/=', '*='), (r'(?<=\s)&(?=\s)', '|')]


def mutants():
    for i in range(lo - 1, hi):
        l = src[i]
        code = l.split('//')[0]
        if not code.strip() or 'assert' in code or 'template' in code or 'using ' in code or code.strip().startswith(('#', '*', 'case ', 'namespace')):
            continue
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                if pat.startswith('(?<![<>=') or '>' in pat:
                    seg = code[max(0, m.start() - 12):m.end() + 2]
                    if re.search(r'[\w_]<[\w_]', seg) or '->' in seg:
                        continue
                n = code[:m.start()] + (rep(m) if callable(rep) else rep) + code[m.end():]
                yield i, l, n
        st = code.strip()
        if st.endswith(';') and re.match(r'^(--|\+\+|[\w.]+ *[-+*/]?= |goto |break)', st) and 'goto return_label' not in st:
            yield i, l, code[:len(code) - len(code.lstrip())] + ';'


def run(cx, drv, tdrv, alone=False):
    lib = cx.lib('m', parts=('conv', 'text') if mode == 'text' else ('conv',))
    fl = 0
    try:
        if mode == 'conv':
            paths, info = checks.run_drv(cx, drv, lib, 'conv', 0, secs, timeout=200)
            if info.get('crashed'):
                return 'crash'
            k = {a: b for a, b in info['flagged'].items() if b}
            return json.dumps(k) if k else None
        for md in ('text', 'buf'):
            paths, info = checks.run_tdrv(cx, tdrv, md, lib, md, 0, secs, timeout=200)
            if info.get('crashed'):
                return 'crash'
            if info.get('flagged') or info.get('found'):
                return md
    except subprocess.TimeoutExpired:
        return 'timeout'
    return None


log = open(out, 'a')
cx0 = core.Ctx('mut', 'quick', 1)
drv, tdrv = cx0.tool('drv', ['drv.cpp']), cx0.tool('tdrv', ['tdrv.cpp'])
cx0.close()
step = int(sys.argv[7]) if len(sys.argv) > 7 else 1
for n, (i, old, new) in enumerate(mutants()):
    if n % step:
        continue
    s = list(src)
    s[i] = new
    open(os.path.join(R, rel), 'w').write('\n'.join(s))
    cx = core.Ctx('mut', 'quick', 1)
    try:
        try:
            v = run(cx, drv, tdrv)
        except core.CheckError as e:
            v = 'no build' if 'error:' in str(e) else 'ERR ' + str(e)[-200:]
    finally:
        cx.close()
    log.write('%s %d: %s  ==> %s   [%s]\n' % ('SURVIVED' if v is None else 'killed', i + 1, old.strip(), new.strip(), v))
    log.flush()
