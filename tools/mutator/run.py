#!/usr/bin/env python3
"""Mutation analysis of the monitors (an evaluation of the checks, not part of them).
usage: run.py build WORK        copies /verif and /repo into WORK, inserts all mutants, builds
       run.py cov WORK          which bins reach which mutants
       run.py go WORK [K/N]     runs every reached mutant against the bins that reach it
"""
import random, resource, json, os, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
cmd, W = sys.argv[1], os.path.abspath(sys.argv[2])
V, R, S = W + '/verif', W + '/repo', W + '/src'
TOOL = os.environ.get('MUT_TOOL', '/tmp/mut_target/release/mutator')
BINS = sorted(f[:-3] for f in os.listdir('/verif/harness/src/bin'))
SKIP = re.compile(r'/(tests?|testing|suite_tests|examples|bin|cw-tokenfactory-types|dao-testing|dao-test-custom-factory|cw-fund-distributor/src/msg|schema|dao-migrator)(/|$)|/(error|msg|lib_tests|.*tests?|integration_tests|suite|mock|shim|v1_state|bitsong|testing)\.rs$|contracts/test/')
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def env(): 
    e = dict(os.environ); e.update(VMON_ROOT=V, VMON_REPO=R, VERIF_SEED='1'); return e
def build():
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(R): subprocess.check_call(['git', 'clone', '-q', '/repo', R])
    if not os.path.isdir(V):
        os.makedirs(V); subprocess.check_call(f'cp -a /verif/harness /verif/tools /verif/known_findings.txt {V}/; mkdir -p {V}/evidence; cp -a /verif/.build {V}/.build', shell=True)
    else: subprocess.check_call(f'cp -a /verif/harness/. {V}/harness/; cp /verif/known_findings.txt {V}/', shell=True)
    files = []
    for top in ('contracts', 'packages'):
        for root, _, names in os.walk('/repo/' + top):
            for n in names:
                f = os.path.relpath(os.path.join(root, n), '/repo')
                if f.endswith('.rs') and '/src/' in f and not SKIP.search('/' + f): files.append(f)
    files.sort()
    open(W + '/files', 'w').write('\n'.join(files) + '\n')
    dis = W + '/disabled'
    if not os.path.exists(dis): open(dis, 'w').close()
    for it in range(40):
        m = sh(f'{TOOL} /repo {R} {W}/files {dis}'); assert m.returncode == 0, m.stderr
        open(W + '/map.tsv', 'w').write(m.stdout)
        mp = {}
        for l in m.stdout.splitlines():
            n, f, line, what, a, b, t = l.split('\t', 6); mp.setdefault(f, []).append((int(a), int(b), int(n), what))
        r = sh(f'cd {V} && . tools/env.sh && python3 tools/mkws.py && cd harness && cargo build --offline --bins --message-format=json', env=env())
        bad, unknown = set(), []
        for l in r.stdout.splitlines():
            try: j = json.loads(l)
            except ValueError: continue
            if j.get('reason') != 'compiler-message' or j['message']['level'] != 'error': continue
            sps = [s for s in j['message']['spans']]
            hit = False
            for s in sorted(sps, key=lambda s: not s['is_primary']):
                f = next((x for x in mp if s['file_name'].endswith(x)), None)
                if not f: continue
                c = [(b - a, n) for a, b, n, w in mp[f] if a <= s['byte_start'] + 60 and s['byte_end'] <= b + 60 and n not in bad]
                c = [(b - a, n) for a, b, n, w in mp[f] if a <= s['byte_start'] and s['byte_end'] <= b + 160] or c
                # the text position of the switch itself
                txt = ' '.join(t['text'] for t in s['text'])
                near = [int(x) for x in re.findall(r'__mm(?:_cmp)?\((\d+)', txt)]
                c2 = [x for x in c if x[1] in near] or c
                if c2:
                    bad.add(min(c2)[1]); hit = True; break
            if not hit: unknown.append(j['message'].get('rendered', '')[:600])
        print(it, 'rc', r.returncode, 'mutants', sum(len(v) for v in mp.values()), 'disabling', len(bad), 'unknown', len(unknown), flush=True)
        if r.returncode == 0: return
        if not bad:
            print('\n'.join(unknown[:10]), r.stderr[-3000:]); sys.exit(1)
        open(dis, 'a').write(' '.join(map(str, sorted(bad))) + '\n')
def cov():
    C = W + '/cov'; shutil.rmtree(C, ignore_errors=True); os.makedirs(C)
    for b in BINS:
        e = env(); e.update(VMON_MUT=str(2**32 - 1), VMON_MUTCOV=f'{C}/{b}')
        r = subprocess.run([f'{V}/.build/target/debug/{b}'], env=e, text=True, capture_output=True, cwd=V)
        print(b, r.returncode, len(open(f'{C}/{b}').read().split()) if os.path.exists(f'{C}/{b}') else 0, flush=True)
def go():
    k, n = map(int, sys.argv[3].split('/')) if len(sys.argv) > 3 else (0, 1)
    reach = {}
    for b in BINS:
        if os.path.exists(f'{W}/cov/{b}'):
            for x in open(f'{W}/cov/{b}').read().split(): reach.setdefault(int(x), []).append(b)
    mp = [l.split('\t', 6) for l in open(W + '/map.tsv').read().splitlines()]
    size = {b: sum(1 for x in reach.values() if b in x) for b in BINS}
    done = set()
    out = f'{W}/res.{k}'
    if os.path.exists(out): done = {int(l.split('\t')[0]) for l in open(out)}
    only = re.compile(os.environ.get('MUT_ONLY', ''))
    killer = {}
    anchors = {}
    for l in open('/verif/properties.jsonl'):
        d = json.loads(l); anchors[d['id'].lower()] = d['anchors']['files']
    with open(out, 'a') as o:
        order = list(enumerate(mp)); random.Random(7).shuffle(order)
        for i, (m, f, line, what, _, _, t) in order:
            m = int(m)
            if i % n != k or m in done or not only.search(f): continue
            bins = reach.get(m, [])
            # small bins first, c26 last, a bin that killed here before first
            bins = sorted(bins, key=lambda b: (-killer.get((f, b), 0), b == 'c26', f not in anchors.get(b, []), size[b]))
            res = 'UNREACHED' if not bins else 'SURVIVED'
            for scale in ('0.15', '1'):
                few = [b for b in bins if f in anchors.get(b, []) and b != 'c26']
                few = few or bins[:3]
                if scale != '1': few = few + [b for b in bins if b not in few and b != 'c26'][:3] + ['c26'] * ('c26' in bins and 'c26' not in few)
                for b in few:
                    e = env(); e.update(VMON_MUT=str(m), VMON_ROOT=f'{W}/root{k}')
                    try:
                        r = subprocess.run([f'{V}/.build/target/debug/{b}', f'--scale={float(scale) * (0.3 if b == "c26" else 1):.3f}'], env=e, text=True, capture_output=True, cwd=V, timeout=45 if scale != '1' else 150, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30)))
                    except subprocess.TimeoutExpired:
                        res = f'TIMEOUT:{b}'; break
                    if 'VIOLATION' in r.stdout:
                        s = re.search(r'^  \[([^\]]*)\]', r.stdout, re.M); res = f'killed:{b}:{s.group(1) if s else ""}'; killer[(f, b)] = killer.get((f, b), 0) + 1; break
                    if r.returncode not in (0, 2): res = f'crash:{b}:{r.returncode}'; break
                    if scale == '1' and r.returncode == 2: res = f'SURVIVED(2:{b})'
                if not res.startswith('SURV'): break
            o.write(f'{m}\t{res}\t{",".join(bins)}\t{f}:{line}\t{what}\t{t}\n'); o.flush()
{'build': build, 'cov': cov, 'go': go}[cmd]()
