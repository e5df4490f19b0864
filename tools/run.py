#!/usr/bin/env python3
"""Contract checks for be-tree:  run.py check <PROPERTY> [--tier quick|thorough] [--only UNIT]

A unit is one proofs/*.c harness (header lines `//@ key value`) that includes the real source files,
attaches contracts to their functions and is discharged by CBMC (goto-instrument --dfcc).
"""
import sys, os, re, json, time, shutil, subprocess, tempfile, glob, signal
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import annotate

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BETREE_REPO', '/repo')
PROOFS = os.path.join(ROOT, 'proofs')
EVID = os.path.join(ROOT, 'evidence')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

AUX = re.compile(r'loop_(invariant|step|assigns|decreases)|\.loop_|decreases|unwind|recursion|no-body|loop_step_unwinding', re.I)
AUXDESC = re.compile(r'loop invariant|decreases|unwinding assertion|recursion unwinding|undefined function|loop contract', re.I)

class Unit:
    def __init__(s, path):
        s.path = path; s.name = os.path.basename(path)[:-2]
        s.props = []; s.enforce = []; s.enforce_rec = []; s.replace = []; s.loops = []; s.solver = 'sat'
        s.cbmc = []; s.goto = []; s.timeout = 240; s.variants = [('', [])]; s.bounded = None; s.functions = []
        s.assumes = []; s.tier = 'quick'; s.kind = 'proof'; s.instr = []; s.native_only = False; s.what = ''
        s.entry = 'main'; s.only = {}; s.rewrites = []; s.cuts = []; s.loopcontracts = False; s.dfcc = True; s.mem = 0
        variants = []
        loopsep = None
        for line in open(path):
            m = re.match(r'//@\s*(\S+)\s*(.*?)\s*$', line)
            if not m: continue
            k, v = m.groups()
            if k == 'props': s.props = v.split()
            elif k == 'enforce': s.enforce += v.split()
            elif k == 'enforce_rec': s.enforce_rec += v.split()
            elif k == 'replace': s.replace += v.split()
            elif k == 'functions': s.functions += v.split()
            elif k == 'assume': s.assumes.append(v)
            elif k == 'solver': s.solver = v
            elif k == 'cbmc': s.cbmc += v.split()
            elif k == 'goto': s.goto += v.split()
            elif k == 'instr': s.instr += v.split()
            elif k == 'timeout': s.timeout = int(v)
            elif k == 'tier': s.tier = v
            elif k == 'kind': s.kind = v
            elif k == 'what': s.what = v
            elif k == 'entry': s.entry = v
            elif k == 'nodfcc': s.dfcc = False
            elif k == 'variant':
                p = v.split(); nm, _, only = p[0].partition('@'); variants.append((nm, p[1:]))
                if only: s.only[nm] = only.split(',')
            elif k == 'loop':
                # file function k/total : clauses
                mm = re.match(r'(\S+)\s+(\S+)\s+(\d+)/(\d+)\s*:\s*(.*)$', v)
                s.loops.append([mm.group(1), mm.group(2), int(mm.group(3)), mm.group(5), int(mm.group(4))])
            elif k == 'ghost':
                mm = re.match(r'(\S+)\s+(\S+)\s+(\d+)/(\d+)\s*:\s*(.*)$', v)
                s.loops.append([mm.group(1), mm.group(2), int(mm.group(3)), 'GHOST ' + mm.group(5), int(mm.group(4))])
            elif k == 'rewrite':
                f, rest = v.split(None, 1); s.rewrites.append((f,) + tuple(rest.split(' => ')))
            elif k == 'cut':  # calls replaced by their contract under another name, in the bounded run too
                f, rest = v.split(None, 1); s.cuts.append((f,) + tuple(rest.split(' => ')))
            elif k == '+':
                s.loops[-1][3] += ' ' + v
            elif k == 'bounded': s.bounded = v.split()
            else: raise SystemExit('%s: unknown key %s' % (path, k))
        if variants: s.variants = variants

def limit_memory():
    # one obligation that needs more than its share is left undischarged, the others go on
    import resource
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    most = 12 << 30 if hard == resource.RLIM_INFINITY else min(12 << 30, hard)
    resource.setrlimit(resource.RLIMIT_AS, (most, most))

def sh(cmd, timeout, cwd=None):
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, start_new_session=True, preexec_fn=limit_memory if cmd[0] == 'cbmc' else None)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace'), time.time() - t
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, e = p.communicate()
        return 'timeout', o.decode('utf8', 'replace'), e.decode('utf8', 'replace'), time.time() - t

def parse_json(out):
    try: js = json.loads(out)
    except ValueError:
        return None, None
    res = []; status = None; msgs = []
    for x in js:
        if 'result' in x: res = x['result']
        if 'cProverStatus' in x: status = x['cProverStatus']
        if x.get('messageType') == 'ERROR': msgs.append(x.get('messageText', ''))
    return dict(result=res, status=status, errors=msgs), js

def build(u, vname, vflags, tmp, bounded):
    d = os.path.join(tmp, '%s.%s%s' % (u.name, vname or 'main', '.bnd' if bounded else ''))
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, 'src')
    try:
        annotate.prepare(os.path.join(REPO, 'src'), src, [] if bounded else u.loops, u.cuts if bounded else u.rewrites + u.cuts)
    except annotate.AnnotateError as ex:
        return None, 'extraction: %s' % ex, ''
    a, b = os.path.join(d, 'a.gb'), os.path.join(d, 'b.gb')
    cmd = ['goto-cc', '-I', src, '-I', PROOFS, '-DHARNESS', '--function', u.entry] + u.goto + vflags + \
        (['-DBOUNDED'] if bounded else []) + [u.path, '-o', a]
    rc, o, e, t = sh(cmd, 120)
    cmds = ' '.join(cmd)
    if rc != 0: return None, 'goto-cc: ' + (e + o)[-1500:], cmds
    if (not u.dfcc and not u.loops) or (bounded and (not u.replace or not u.dfcc)):
        cmd = ['goto-instrument', '--drop-unused-functions', a, b]
        cmds += ' ; ' + ' '.join(cmd)
        rc, o, e, t = sh(cmd, 120)
        if rc != 0: return None, 'goto-instrument: ' + (e + o)[-1500:], cmds
        return b, None, cmds
    cmd = ['goto-instrument', '--no-malloc-may-fail']
    if bounded:
        # same harness, callee contracts kept, loops of the function unwound instead of cut by an invariant
        cmd += ['--dfcc', u.entry]
        for f in u.replace: cmd += ['--replace-call-with-contract', f]
    elif u.dfcc:
        cmd += ['--dfcc', u.entry]
        for f in u.enforce: cmd += ['--enforce-contract', f]
        for f in u.enforce_rec: cmd += ['--enforce-contract-rec', f]
        for f in u.replace: cmd += ['--replace-call-with-contract', f]
        if u.loops: cmd += ['--apply-loop-contracts']
        cmd += u.instr
    elif u.loops:
        cmd += ['--apply-loop-contracts'] + u.instr
    else:
        return a, None, cmds
    cmd += [a, b]
    cmds += ' ; ' + ' '.join(cmd)
    rc, o, e, t = sh(cmd, 180)
    if rc != 0: return None, 'goto-instrument: ' + (e + o)[-1500:], cmds
    if re.search(r"(was not found|not found in the goto model|Function .* not found)", o + e):
        pass
    return b, None, cmds

def run_variant(u, vname, vflags, tmp, bounded=False):
    r = dict(unit=u.name, variant=vname, obligations=0, discharged=0, status='BROKEN', failed=[], why='', time=0.0, solver=u.solver, bounded=bool(bounded))
    gb, err, cmds = build(u, vname, vflags, tmp, bounded)
    r['cmd'] = cmds
    if gb is None:
        r['why'] = err; return r
    cmd = ['cbmc', gb, '--json-ui', '--no-malloc-may-fail', '--verbosity', '8']
    if bounded: cmd += u.bounded
    else: cmd += u.cbmc
    solver = 'sat' if bounded else u.solver
    cmd += {'sat': ['--slice-formula', '--sat-solver', 'cadical'], 'cvc5': ['--cvc5'], 'z3': ['--z3'], 'minisat': ['--slice-formula']}[solver]
    r['cmd'] += ' ; ' + ' '.join(cmd)
    tmo = u.timeout * (3 if TIER == 'thorough' else 1)
    rc, o, e, t = sh(cmd, tmo)
    if rc != 'timeout' and 'too many addressed objects' in o:
        # the size of a pointer's object part is a setting of the back end: more objects need more bits
        cmd = [c for i, c in enumerate(cmd) if c != '--object-bits' and (i == 0 or cmd[i - 1] != '--object-bits')] + ['--object-bits', '12']
        rc, o, e, t2 = sh(cmd, tmo); t += t2
    r['time'] = t
    if rc == 'timeout':
        r['why'] = 'timeout after %ds' % tmo; r['timeout'] = True; return r
    p, js = parse_json(o)
    if p is None:
        r['why'] = 'cbmc output unreadable (rc %s): %s' % (rc, (o + e)[-600:]); return r
    smt = solver in ('cvc5', 'z3')
    if not p['result']:
        r['why'] = 'cbmc: %s' % '; '.join(p['errors'])[-600:] if p['errors'] else 'no obligations'
        if smt and any('error' in x.lower() or 'parse' in x.lower() for x in p['errors']): r['status'] = 'UNDISCHARGED'
        return r
    reach = [x for x in p['result'] if x['description'] == 'REACH']
    rest = [x for x in p['result'] if x['description'] != 'REACH']
    r['obligations'] = len(rest)
    bad = [x for x in rest if x['status'] == 'FAILURE']
    unk = [x for x in rest if x['status'] not in ('FAILURE', 'SUCCESS')]
    r['discharged'] = sum(1 for x in rest if x['status'] == 'SUCCESS')
    r['names'] = [x['property'] for x in rest]
    def brief(x):
        l = x.get('sourceLocation', {})
        return dict(property=x['property'], description=x['description'], function=l.get('function'), file=os.path.basename(l.get('file', '') or ''), line=l.get('line'))
    r['failed'] = [brief(x) for x in bad]
    if bad:
        hard = [x for x in bad if not (AUX.search(x['property']) or AUXDESC.search(x['description']))]
        # with loop contracts a broken auxiliary clause (invariant, frame, decreases) makes the obligations after
        # the loop meaningless: such a unit is undecided, and the bounded run of the same harness decides
        r['status'] = 'FAILED' if hard and (len(hard) == len(bad) or not u.loops) else 'AUX'
        r['gb'] = gb; r['cbmccmd'] = cmd
        r['first'] = (hard or bad)[0]['property']
        return r
    if unk:
        r['status'] = 'UNDISCHARGED'; r['why'] = 'solver gave no answer for %d obligations' % len(unk)
        r['failed'] = [brief(x) for x in unk]
        return r
    if not smt or True:
        if reach and any(x['status'] == 'SUCCESS' for x in reach):
            r['status'] = 'BROKEN'; r['why'] = 'VACUOUS: the end of the harness is unreachable'; return r
    if not reach and not smt:
        r['status'] = 'BROKEN'; r['why'] = 'no reachability check'; return r
    if r['obligations'] == 0:
        r['status'] = 'BROKEN'; r['why'] = 'no obligations'; return r
    r['status'] = 'PROVED'
    return r

def vacuity_smt(u, vname, vflags, tmp):
    """SMT units: the same harness with an assertion false at the end must not be provable."""
    gb, err, cmds = build(u, (vname or 'main') + '_vac', vflags + ['-DVACUITY'], tmp, False)
    if gb is None: return False, err
    cmd = ['cbmc', gb, '--json-ui', '--no-malloc-may-fail'] + u.cbmc + {'cvc5': ['--cvc5'], 'z3': ['--z3']}[u.solver]
    rc, o, e, t = sh(cmd, u.timeout)
    if rc == 'timeout': return True, 'undecided in %ds' % u.timeout
    p, js = parse_json(o)
    if p is None: return True, 'not provable'
    if p['result'] and all(x['status'] == 'SUCCESS' for x in p['result']): return False, 'VACUOUS'
    return True, 'not provable'

def run_unit_variant(args):
    u, vname, vflags, tmp = args
    r = run_variant(u, vname, vflags, tmp)
    if r['status'] == 'PROVED' and u.solver in ('cvc5', 'z3'):
        ok, why = vacuity_smt(u, vname, vflags, tmp)
        r['vacuity'] = why
        if not ok: r['status'] = 'BROKEN'; r['why'] = 'vacuity check: ' + why
    if r['status'] != 'PROVED' and u.bounded is not None:
        r['fallback'] = run_variant(u, vname, vflags, tmp, bounded=True)
    return r

def trace(r):
    if not r.get('gb') or not os.path.exists(r['gb']): return ''
    cmd = [c for c in r['cbmccmd'] if c != '--json-ui'] + ['--trace', '--compact-trace', '--property', r['first']]
    rc, o, e, t = sh(cmd, 300)
    return o[-12000:]

# ---------------------------------------------------------------- native search
NATIVE = os.path.join(ROOT, 'native')

def native_build(tmp, prop):
    fam = os.path.join(NATIVE, prop.lower() + '.c')
    if not os.path.exists(fam): return None, None
    exe = os.path.join(tmp, 'native_' + prop)
    srcs = sorted(glob.glob(os.path.join(REPO, 'src', '*.c')))
    cmd = ['gcc', '-std=gnu11', '-g', '-O1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=alignment,float-cast-overflow,nonnull-attribute',
           '-I', os.path.join(REPO, 'src'), '-I', NATIVE, fam, os.path.join(NATIVE, 'common.c')] + srcs + ['-lm', '-o', exe]
    rc, o, e, t = sh(cmd, 300)
    if rc != 0: return None, (e + o)[-2000:]
    return exe, None

def native_run(exe, prop, seed, secs, outfile, procs):
    """procs searches side by side, each with a seed of its own; the first failing input wins."""
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1')
    ps = []
    for k in range(procs):
        of = outfile + '.%d' % k; log = open(of + '.log', 'wb+')
        ps.append((subprocess.Popen([exe, str(seed + 1000003 * k), str(secs), of], stdout=log, stderr=subprocess.STDOUT, start_new_session=True, env=env), of, log))
    end = time.time() + secs + 120; rcs = {}
    while len(rcs) < procs and time.time() < end:
        for k, (p, of, log) in enumerate(ps):
            if k not in rcs and p.poll() is not None: rcs[k] = p.returncode
        if any(rc == 1 for rc in rcs.values()): break
        time.sleep(0.1)
    for k, (p, of, log) in enumerate(ps):
        if k not in rcs:
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            p.wait(); rcs.setdefault(k, 'timeout' if time.time() >= end else 'stopped')
    order = sorted(rcs, key=lambda k: (rcs[k] != 1, rcs[k] == 0 or rcs[k] == 'stopped', k))
    k = order[0]; txts = []
    for kk, (p, of, log) in enumerate(ps):
        log.seek(0); t = log.read().decode('utf8', 'replace'); log.close()
        txts.append(t)
        if kk == k and os.path.exists(of): shutil.move(of, outfile)
        for f in (of, of + '.log'):
            if os.path.exists(f): os.unlink(f)
    if rcs[k] == 0: return 0, ' | '.join(t.strip().splitlines()[-1] for t in txts if t.strip())
    return rcs[k], txts[k]

def main():
    global TIER
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['check', 'units'])
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only'); ap.add_argument('--no-native', action='store_true'); ap.add_argument('--keep', action='store_true')
    a = ap.parse_args(); TIER = a.tier
    allunits = [Unit(p) for p in sorted(glob.glob(os.path.join(PROOFS, '*.c')))]
    if a.cmd == 'units':
        for u in allunits: print(u.name, u.props, u.solver, [v[0] for v in u.variants])
        return 0
    prop = a.prop
    units = [u for u in allunits if prop in u.props and (u.tier == 'quick' or TIER == 'thorough')]
    if a.only: units = [u for u in allunits if re.fullmatch(a.only, u.name)]
    tmp = tempfile.mkdtemp(prefix='betree_verif_')
    t0 = time.time()
    try:
        return check(prop, units, tmp, t0, a)
    finally:
        if a.keep: print('kept', tmp)
        else: shutil.rmtree(tmp, ignore_errors=True)

def check(prop, units, tmp, t0, a):
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    jobs = [(u, vn, vf, tmp) for u in units for vn, vf in u.variants if prop in u.only.get(vn, [prop])]
    jobs.sort(key=lambda j: -j[0].timeout)
    nat = None; natres = None; nattxt = ''; naterr = None
    natsecs, natprocs = (15, 2) if TIER == 'quick' else (240, 6)
    natout = os.path.join(EVID, 'replay', '%s-native.txt' % prop)
    if os.path.exists(natout): os.unlink(natout)
    with ThreadPoolExecutor(JOBS) as ex:
        natf = None
        if not a.no_native:
            def nj():
                exe, err = native_build(tmp, prop)
                if exe is None: return None, err, ''
                rc, txt = native_run(exe, prop, SEED, natsecs, natout, natprocs)
                return exe, rc, txt
            natf = ex.submit(nj)
        res = list(ex.map(run_unit_variant, jobs))
        if natf: nat, natres, nattxt = natf.result()
    if nat is None and natres: naterr = natres; natres = None
    for r in res:
        print('%-9s %-34s %5d/%-5d %6.1fs %s%s' % (r['status'], r['unit'] + (':' + r['variant'] if r['variant'] else ''), r['discharged'], r['obligations'], r['time'],
            r['solver'], (' ' + r['why'].replace('\n', ' ')[-300:]) if r['why'] else ''))
        for f in r['failed'][:6]: print('          failed: %s %s:%s %s' % (f['property'], f['file'], f['line'], f['description'][:110]))
        if 'fallback' in r:
            fb = r['fallback']
            print('          bounded fallback: %s %s' % (fb['status'], fb['why'].replace('\n', ' ')[-200:]))
            for f in fb['failed'][:4]: print('            failed: %s %s:%s %s' % (f['property'], f['file'], f['line'], f['description'][:110]))
    natfound = natres == 1
    bad = [r for r in res if r['status'] != 'PROVED']
    if bad and not natfound and nat and TIER == 'quick' and natres == 0:
        # search longer for a failing input before deciding
        rc, txt = native_run(nat, prop, SEED + 7919, 60, natout, 7)
        nattxt += txt; natres = rc; natfound = rc == 1
    refuted = [r for r in bad if (r['status'] == 'FAILED' and 'fallback' not in r) or (r.get('fallback', {}).get('status') == 'FAILED')]
    lost = [r for r in bad if r not in refuted]
    exitcode = 0; viol = 0
    if nat: print('native search: %s  %s' % ({0: 'no failing input', 1: 'FAILING INPUT'}.get(natres, 'rc %s' % natres), nattxt.strip().splitlines()[-1] if nattxt.strip() else ''))
    elif naterr: print('native search not built: %s' % naterr[-400:])
    if natfound:
        if refuted or lost:
            with open(natout, 'a') as fh:
                for r in refuted + lost:
                    fh.write('\nunproved obligation in unit %s %s: %s %s\n' % (r['unit'], r['variant'], r['status'], json.dumps(r['failed'][:5])))
        print('VIOLATION property=%s replay=%s' % (prop, natout)); exitcode = 1; viol = 1
    elif refuted:
        path = os.path.join(EVID, 'replay', '%s-obligation.txt' % prop)
        with open(path, 'w') as fh:
            for r in refuted:
                rr = r if r['status'] == 'FAILED' and 'fallback' not in r else r['fallback']
                fh.write('unit %s %s\ncommand: %s\nfailed obligations:\n%s\n\nverifier output:\n%s\n' % (r['unit'], r['variant'], rr['cmd'], json.dumps(rr['failed'], indent=1), trace(rr)))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path)); exitcode = 1; viol = len(refuted)
    for r in lost:
        print('PROOF-LOST %s%s: %s %s (not a violation: bounded checks and the search for a failing input found none)' % (r['unit'], ':' + r['variant'] if r['variant'] else '', r['status'], r['why'].replace('\n', ' ')[:200]))
    ok = [r for r in res if r['status'] == 'PROVED']
    proof = [r for r in ok if next(u for u in units if u.name == r['unit']).kind == 'proof']
    bnd = [r for r in ok if r not in proof]
    known = []
    kf = os.path.join(ROOT, 'KNOWN_FINDINGS')
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith('KNOWN-FINDING:') and 'property=%s ' % prop in l:
                print(l.strip()); known.append(l.strip())
    if not ok and not nat:
        print('nothing could be checked'); exitcode = exitcode or 2
    uf = {}
    for u in units:
        for f in u.enforce + u.enforce_rec: uf.setdefault(f.split('/')[0], 'contract enforced')
        for f in u.functions: uf.setdefault(f, 'body verified in place (inlined into the unit)')
    ev = dict(property=prop, tier=TIER, seed=SEED, level='proof' if proof and not bad else 'other', wall_s=round(time.time() - t0, 1), violations=viol,
        coverage=dict(
            obligations=sum(r['obligations'] for r in res if next(u for u in units if u.name == r['unit']).kind == 'proof'),
            discharged=sum(r['discharged'] for r in proof),
            checker_cmd=res[0]['cmd'] if res else 'none',
            trusted_base=sorted({'cbmc 6.11.0 / goto-instrument --dfcc', 'goto-cc C front end, LP64 machine model, IEEE-754 double'} | {'solver: ' + {'sat': 'CaDiCaL (bit-precise)', 'cvc5': 'cvc5 1.1.2 (SMT, quantifiers)', 'z3': 'z3', 'minisat': 'MiniSat (bit-precise)'}[u.solver] for u in units}),
            explanation='Contracts on the functions of /repo/src as compiled, discharged unit by unit; see units. The bounded stand-ins (listed apart) and the native search are not counted in obligations.',
            functions_under_contract=uf,
            contracts_assumed_at_calls=sorted({f for u in units for f in u.replace}),
            units=[dict(unit=r['unit'], variant=r['variant'], what=next(u for u in units if u.name == r['unit']).what, kind=next(u for u in units if u.name == r['unit']).kind, status=r['status'], obligations=r['obligations'], discharged=r['discharged'], back_end=r['solver'], solver_s=round(r['time'], 2), vacuity=r.get('vacuity', 'REACH assertion refuted'), why=r['why'][-300:],
                bounded_fallback=(r['fallback']['status'] if 'fallback' in r else None)) for r in res],
            bounded_obligations=sum(r['discharged'] for r in bnd),
            solver_seconds=round(sum(r['time'] for r in res), 1),
            native_search=dict(ran=bool(nat), result={0: 'no failing input', 1: 'failing input'}.get(natres, str(natres)), summary=nattxt.strip().splitlines()[-1] if nattxt.strip() else '', role='replays and searches for a concrete failing input; not counted as proof'),
            known_findings=known),
        assumptions=sorted({x for u in units for x in u.assumes}) or ['none beyond the trusted base'])
    if ev['level'] == 'other': ev['coverage']['explanation'] = 'Reduced on this tree: ' + '; '.join('%s %s' % (r['unit'], r['status']) for r in bad) + '. ' + ev['coverage']['explanation']
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged in %d units, %d bounded, %.0fs' % (prop, ev['coverage']['discharged'], ev['coverage']['obligations'], len(proof), len(bnd), time.time() - t0))
    return exitcode

if __name__ == '__main__':
    sys.exit(main())
