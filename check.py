#!/usr/bin/env python3
"""Static-analysis driver: check.py <PROPERTY> [--tier quick|thorough]
Compiles /repo's current sources and the property's harness to LLVM IR, links them, runs the abstract interpreter
(engine/) on every entry function, applies the rules of the property and writes evidence/<PROPERTY>.json."""
import json, os, re, subprocess, sys, time, shutil, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('CALIGO_REPO', '/repo')
SA = V + '/build/sa'
BASEF = ['-std=gnu++20', '-maes', '-mpclmul', '-I' + REPO + '/include', '-I' + V + '/harness'] + \
  [x for h in 'cstring algorithm memory variant filesystem stdexcept functional array cstdint span string vector'.split() for x in ('-include', h)]
IRF = ['-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-emit-llvm', '-c', '-w']
MEM = {'out-of-bounds', 'misaligned', 'null-deref', 'use-after-free', 'uninit-branch', 'uninit-pointer', 'double-free', 'bad-free', 'write-const', 'write-frozen',
       'div-by-zero', 'uncaught-exception', 'terminate', 'trap', 'null-call', 'huge-allocation', 'unreachable', 'ct-branch', 'shared-write', 'ct-address', 'ct-compare', 'ct-division'}

class Broken(Exception): pass

def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)

def build_engine():
    r = sh(['bash', V + '/engine/build.sh'])
    if r.returncode or not os.path.exists(SA): raise Broken('engine does not build:\n' + r.stderr[-3000:])

def directives(path):
    d = {'stub': [], 'min': 1, 'maxsec': 240, 'src': None, 'flags': [], 'engine': []}
    for l in open(path):
        m = re.match(r'//\s*SA-(\w+)(?:\[(!?)(\w+)\])?:\s*(.*)', l)
        if not m: continue
        k, v = m.group(1).lower(), m.group(4).strip()
        if k == 'stub': d['stub'].append((v, m.group(3), bool(m.group(2))))  # SA-STUB[word]: only in entries with that word in their name, SA-STUB[!word]: only in others
        elif k in ('min', 'maxsec'): d[k] = int(v)
        elif k == 'engine': d['engine'] += v.split()
        elif k == 'flags': d['flags'] += v.split()
        else: d[k] = v
    return d

def compile_ir(src, out, extra=()):
    r = sh(['clang++-18'] + BASEF + list(extra) + IRF + [src, '-o', out])
    return r

def prepare(prop, tier, tmp):
    h = f'{V}/harness/{prop}.cpp'
    if not os.path.exists(h): raise Broken('no harness ' + h)
    d = directives(h)
    srcs = sorted(os.path.join(REPO, 'src', f) for f in os.listdir(REPO + '/src') if f.endswith('.cpp'))
    jobs = [(s, f'{tmp}/r{i}.bc', ()) for i, s in enumerate(srcs)]
    jobs.append((V + '/harness/rt.cpp', tmp + '/rt.bc', ()))
    hx = ['-DTHOROUGH=1'] if tier == 'thorough' else []
    jobs.append((h, tmp + '/h.bc', hx + d['flags']))
    need = len(jobs)  # further translation units of the harness look at one declaration of the sources; where that is gone, so are they
    jobs += [(V + '/harness/' + f, f'{tmp}/h{i}.bc', hx + d['flags']) for i, f in enumerate(sorted(os.listdir(V + '/harness'))) if re.fullmatch(prop + r'_\w+\.cpp', f)]
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda j: compile_ir(*j), jobs))
    for j, r in zip(jobs[:need], res):
        if r.returncode: raise Broken(f'{j[0]} does not compile:\n' + r.stderr[-3000:])
    jobs = jobs[:need] + [j for j, r in zip(jobs[need:], res[need:]) if not r.returncode]
    cmd = [SA, 'link', '-o', tmp + '/all.bc']
    for s, _, _ in d['stub']: cmd += ['--noinline', s.split('=')[0]]
    r = sh(cmd + [j[1] for j in jobs])
    if r.returncode: raise Broken('link failed: ' + r.stderr[-2000:])
    nm = sh(['llvm-nm-18', '--defined-only', '--format=just-symbols'] + [j[1] for j in jobs[need - 1:]])
    ents = sorted(set(re.findall(r'^(prop_\w+|ct_\w+)$', nm.stdout, re.M)))
    if not ents: raise Broken('no entry functions in ' + h)
    return d, ents, [s.replace(REPO + '/', '') for s in srcs]

def run_entry(tmp, d, e, lim):
    out = f'{tmp}/{e}.json'
    # entries that an unusual tree makes slow are cut off (and reported as undecided) so that the check always answers in time
    sec = d['maxsec']
    if lim['end']: sec = max(1, min(sec, int(lim['end'] - time.time())))
    cmd = [SA, 'run', tmp + '/all.bc', '--entry', e, '--out', out, '--max-sec', str(sec)] + d['engine']
    if lim['end'] and time.time() > lim['end']: return {'entry': e, 'aborted': 'not analysed, time budget of the quick tier used up', 'obligations': [], 'events': [], 'functions': [], 'stats': {}, 'ignored': [], 'global_writes': [], 'cmd': cmd}
    if e.startswith('ct_'): cmd.append('--ct')
    for s, word, neg in d['stub']:
        if not word or (word in e) != neg: cmd += ['--stub', s]
    try: r = sh(cmd, timeout=sec + 60)
    except subprocess.TimeoutExpired: return {'entry': e, 'aborted': 'engine timeout', 'obligations': [], 'events': [], 'functions': [], 'stats': {}, 'ignored': [], 'global_writes': [], 'cmd': cmd}
    if not os.path.exists(out): return {'entry': e, 'aborted': f'engine exit {r.returncode}: {r.stderr[-500:]}', 'obligations': [], 'events': [], 'functions': [], 'stats': {}, 'ignored': [], 'global_writes': [], 'cmd': cmd}
    j = json.load(open(out)); j['cmd'] = cmd
    if lim['end'] and (any(o['status'] == 'refuted' for o in j['obligations']) or any(x['status'] == 'violation' and x['kind'] in MEM for x in j['events'])): lim['end'] = min(lim['end'], lim['t0'] + 240)
    return j

def known(prop):
    """lines 'known: property=<id> match=<regex> :: <text>' in known_findings.txt"""
    res = []
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known:\s+property=(\w+)\s+match=(.*?)\s+::\s+(.*)', l.strip())
            if m and m.group(1) == prop: res.append((re.compile(m.group(2)), m.group(3)))
    return res

def finish(prop, tier, t0, level, coverage, viol, assumptions=()):
    """viol: list of one-line texts; prints, writes evidence and replay file, returns the exit code"""
    kn = known(prop); shown = []; real = []
    for v in viol:
        for rx, txt in kn:
            if rx.search(v):
                if txt not in shown: shown.append(txt)
                break
        else: real.append(v)
    os.makedirs(V + '/evidence', exist_ok=True)
    for t in shown: print(f'KNOWN-FINDING: property={prop} {t}')
    rp = f'{V}/evidence/{prop}.replay.txt'
    if real:
        with open(rp, 'w') as f: f.write(f'property {prop}, tier {tier}: reproduce with  python3 {V}/check.py {prop} --tier {tier}\n\n' + '\n\n'.join(real) + '\n')
    elif os.path.exists(rp): os.remove(rp)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': level, 'coverage': coverage, 'wall_s': round(time.time() - t0, 2),
          'violations': [v[:1500] for v in real], 'assumptions': list(assumptions)}
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    if real:
        for v in real[:5]: print('  ' + v[:700])
        print(f'VIOLATION property={prop} replay={rp}')
        return 1
    print(f'OK {prop}: ' + coverage.get('summary', ''))
    return 0

def main():
    prop = sys.argv[1]; tier = 'quick'
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    verbose = '-v' in sys.argv
    t0 = time.time(); build_engine()
    if os.path.exists(f'{V}/analyses/{prop}.py'):
        sys.path.insert(0, V + '/analyses'); sys.path.insert(0, V)
        import importlib
        return importlib.import_module(prop).check(prop, tier, t0)
    tmp = tempfile.mkdtemp(prefix='sa_' + prop + '_', dir=os.environ.get('TMPDIR', '/tmp'))
    try:
        return interp(prop, tier, t0, tmp, only, verbose)
    finally:
        if '--keep' not in sys.argv: shutil.rmtree(tmp, ignore_errors=True)
        else: print('kept', tmp)

def analyse(prop, tier, tmp, only=None, verbose=False):
    t0 = time.time(); lim = {'t0': t0, 'end': t0 + 600 if tier == 'quick' else 0}
    d, ents, srcs = prepare(prop, tier, tmp)
    if only: ents = [e for e in ents if only in e]
    with ThreadPoolExecutor(8) as ex: reps = list(ex.map(lambda e: run_entry(tmp, d, e, lim), ents))
    return d, ents, srcs, reps

def interp(prop, tier, t0, tmp, only, verbose):
    d, ents, srcs, reps = analyse(prop, tier, tmp, only, verbose)
    viol, und = [], []
    cnt = {'proved': 0, 'refuted': 0, 'undecided': 0}; units = 0; fns = set(); st = {}; ign = set(); perid = {}
    for r in reps:
        fns |= set(r['functions']); ign |= set(r['ignored'])
        for k, v in r['stats'].items():
            if k != 'wall': st[k] = st.get(k, 0) + v
        if r['aborted']: und.append(f"{r['entry']}: analysis stopped: {r['aborted'][:400]}")
        for o in r['obligations']:
            if o['status'] == 'note': continue
            cnt[o['status']] += 1; units += o['units']
            p = perid.setdefault(r['entry'] + '/' + o['id'], {'proved': 0, 'refuted': 0, 'undecided': 0}); p[o['status']] += 1
            line = f"{r['entry']}/{o['id']} [{o['ctx']}] {o['detail']}"
            if o['status'] == 'refuted': viol.append(line)
            elif o['status'] == 'undecided': und.append(line)
        for e in r['events']:
            line = f"{r['entry']}/{e['kind']} [{e['ctx']}] at {e['loc']}: {e['msg']} | path: {e['trace'][:900]}"
            if e['kind'] in MEM:
                (viol if e['status'] == 'violation' else und).append(line)
        if verbose: print(r['entry'], r['stats'].get('wall'), r['stats'].get('instructions'), r['stats'].get('nodes'), r['aborted'])
    tot = sum(cnt.values())
    repo_fns = sorted(f for f in fns if f.startswith('repo:'))
    nct = sum(r['stats'].get('cond_branches', 0) + r['stats'].get('mem_accesses', 0) for r in reps if r.get('ct'))
    cov = {'obligations': tot, 'discharged': cnt['proved'], 'checker_cmd': f'python3 /verif/check.py {prop} --tier {tier}',
           'trusted_base': ['clang 18 front end and O1 scalar passes', 'engine/term.h normal forms and engine/sa.cpp IR semantics', 'harness/' + prop + '.cpp reference definitions', 'models of memcpy/operator new/AES-NI/PCLMUL intrinsics'],
           'explanation': 'abstract interpretation of LLVM IR in a value-graph domain; each obligation is proved by equal normal form, refuted by a distinguishing valuation of the value graph (random interpretation), or left undecided (not an alarm)',
           'undecided': cnt['undecided'] + sum(1 for r in reps if r['aborted']), 'undecided_list': und[:60], 'units_compared': units, 'per_rule': perid, 'entries': ents,
           'units_analysed': srcs, 'functions_analysed': repo_fns[:400], 'functions_count': len(repo_fns), 'stats': st, 'ignored_externals': sorted(ign),
           'ct_sites_visited': nct,
           'summary': f"{cnt['proved']}/{tot} obligations proved, {cnt['undecided']} undecided, {len(ents)} entries" + (f" ({sum(1 for r in reps if r['aborted'])} stopped early)" if any(r['aborted'] for r in reps) else '') + f", {len(repo_fns)} repo functions, {st.get('instructions', 0)} IR steps"}
    if verbose:
        for u in und[:6]: print('UNDECIDED', u[:500])
        for v in viol[:12]: print('VIOL', v[:700])
    if not viol and not only and tot < d['min']:
        # fewer obligations than the property needs: with analyses that had to stop, this is undecided code (reported, claims little); without, the check itself is broken
        if und and tot: print(f'INCOMPLETE: {tot} obligations generated, normally {d["min"]} or more; the analysis had to stop in places: ' + '; '.join(und[:3])[:600])
        else: raise Broken(f'only {tot} obligations were generated, expected at least {d["min"]}: ' + '; '.join(und[:5])[:1500])
    return finish(prop, tier, t0, 'other', cov, viol, [])

if __name__ == '__main__':
    try: sys.exit(main())
    except Broken as b:
        print('ANALYSIS-BROKEN: ' + str(b)); sys.exit(2)
