#!/usr/bin/env python3
"""check.py <property>: proves the contracts behind one property on /repo's current source.

1. builds govc (the verifier) from /verif/govc and type-checks /repo;
2. generates and discharges every obligation of the property from /repo's working tree;
3. when an obligation fails, looks for a concrete failing input against the real code (replay harness,
   'go test -overlay') and reports the violation;
4. when all are discharged, runs the same harness for a moment as a bounded cross-check of the trusted base
   (never counted as proof).
Exit 0 held, 1 violation, 2 the check itself could not run."""
import json, os, re, subprocess, sys, time, glob, tempfile, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUILD = os.path.join(VERIF, '.build')
PROPS = json.load(open(os.path.join(VERIF, 'spec', 'checks.json')))


def goenv():
    e = dict(os.environ)
    if os.path.isdir('/opt/veriftools/go1.27.3/bin'):
        e['PATH'] = '/opt/veriftools/go1.27.3/bin:' + e.get('PATH', '')
    e.setdefault('HOME', '/root')
    e.update(GOFLAGS='-mod=vendor', GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off')
    return e


def build_govc():
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'govc.%d' % os.getpid())
    r = subprocess.run(['go', 'build', '-o', out, '.'], cwd=os.path.join(VERIF, 'govc'), env=goenv(), capture_output=True, text=True)
    if r.returncode:
        print('cannot build govc:\n' + r.stderr[-3000:])
        sys.exit(2)
    os.replace(out, os.path.join(BUILD, 'govc'))
    return os.path.join(BUILD, 'govc')


def table(dst):
    fns = []
    for f in sorted(glob.glob(REPO + '/a2l/*.go')):
        if f.endswith('_test.go'):
            continue
        for m in re.finditer(r'^func (parse\w+)\((\w+) \*tokenGenerator\) \(([\w.\[\]*]+), error\)', open(f).read(), re.M):
            fns.append(m.group(1))
    s = 'package a2l\n\nvar vTable = map[string]func(*tokenGenerator) (any, error){\n'
    for n in fns:
        s += '"%s": func(t *tokenGenerator) (any, error) { v, e := %s(t); return v, e },\n' % (n, n)
    open(dst, 'w').write(s + '}\n')


def replay(prop, harness, focus, seed, tier, tmp, limit):
    """runs the concrete harness; returns (case or None, summary)"""
    pkg, test = harness['pkg'], harness['test']
    src = os.path.join(VERIF, 'replay', harness['dir'])
    case = os.path.join(tmp, 'case.json')
    e = goenv()
    e.update(VERIF_GRAMMAR=os.path.join(VERIF, 'spec', 'a2l_grammar.json'), VERIF_PROP=prop, VERIF_SEED=str(seed), VERIF_TIER=tier,
             VERIF_OUT=case, VERIF_FOCUS=','.join(focus), VERIF_TMP=tmp, VERIF_PKG=pkg, GORACE='halt_on_error=1')
    if harness.get('race'):
        e['VERIF_RACE'] = '1'
    binp = os.path.join(tmp, 'h.test')
    err = ''
    # second attempt: without the files that reach into unexported names
    for variant in ('', '.fallback'):
        over = {}
        names = sorted(os.listdir(src))
        for f in names:
            if not f.endswith('.go'):
                continue
            use = f + variant if f + variant in names else f
            over[os.path.join(REPO, pkg, f)] = os.path.join(src, use)
        for f in names:
            if f.endswith('.fallback') and f[:-9] not in names:
                g = f[:-9]
                use = g + '.' + pkg if variant == '' and g + '.' + pkg in names else f
                over[os.path.join(REPO, pkg, g)] = os.path.join(src, use)
        if harness['dir'] == 'hex':
            for k in list(over):
                t = os.path.join(tmp, os.path.basename(k))
                open(t, 'w').write(open(over[k]).read().replace('package hexreader', 'package ' + pkg))
                over[k] = t
        if harness['dir'] == 'a2l':
            t = os.path.join(tmp, 'zz_verif_table_test.go')
            table(t)
            over[os.path.join(REPO, pkg, 'zz_verif_table_test.go')] = t
        over = {os.path.normpath(k): v for k, v in over.items()}
        # the package's own tests are left out of this build
        for f in glob.glob(os.path.normpath(os.path.join(REPO, pkg)) + '/*_test.go'):
            over.setdefault(f, '')
        ov = os.path.join(tmp, 'overlay.json')
        json.dump({'Replace': over}, open(ov, 'w'))
        b = subprocess.run(['go', 'test', '-c', '-vet=off', '-o', binp, '-overlay', ov] + (['-race'] if harness.get('race') else []) + ['./' + pkg], cwd=REPO, env=e, capture_output=True, text=True)
        if b.returncode == 0 or not any(f.endswith('.fallback') for f in names):
            break
        err = b.stderr
    if b.returncode:
        return None, 'harness does not build on this tree: ' + b.stderr[-600:]
    work = os.path.join(tmp, 'work')
    os.makedirs(work, exist_ok=True)
    try:
        r = subprocess.run([binp, '-test.run', '^' + test + '$', '-test.v', '-test.timeout', '%ds' % limit], cwd=work, env=e, capture_output=True, text=True, timeout=limit + 30, errors='replace')
        out = r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return None, 'harness timed out'
    cur = case + '.cur'
    m = re.search(r'^(panic: .*|fatal error: .*|WARNING: DATA RACE)$', out, re.M)
    if not os.path.exists(case) and r.returncode and m and 'test timed out' not in m.group(1) and os.path.exists(cur):
        c = json.load(open(cur))
        c['What'] = m.group(1)
        c['Got'] = out[m.start():m.start() + 2500]
        return c, 'the real code crashed'
    m = re.search(r'VERIF-DONE (.*)', out)
    summ = m.group(1) if m else 'harness ended early: ' + out[-600:]
    if os.path.exists(case):
        c = json.load(open(case))
        return c, summ
    return None, summ


def main():
    prop = sys.argv[1]
    cfg = PROPS[prop]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    govc = build_govc()
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    try:
        rc = run(prop, cfg, tier, seed, t0, govc, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(prop, cfg, tier, seed, t0, govc, tmp):
    out = os.path.join(tmp, 'report.json')
    to = 10000 if tier == 'quick' else 60000
    cmd = [govc, '-repo', REPO, '-verif', VERIF, '-prop', prop, '-out', out, '-timeout', str(to)]
    if tier == 'thorough':
        cmd += ['-cross']
    try:
        r = subprocess.run(cmd, env=goenv(), capture_output=True, text=True, timeout=780 if tier == 'quick' else 7200)
    except subprocess.TimeoutExpired:
        r = None
    if r is None or not os.path.exists(out):
        txt = 'timeout' if r is None else (r.stdout + r.stderr)[-2000:]
        if 'cannot load' in txt:
            print('the repository does not type-check: ' + txt)
            return 2
        rep = {'Failed': [{'Fn': '(verifier)', 'Name': 'run', 'Detail': 'the verifier gave no report: ' + txt, 'Res': 'error'}], 'Obligations': 1, 'Discharged': 0,
               'Functions': [], 'Inlined': [], 'Externs': [], 'BySolver': {}, 'Simplifier': 0, 'SolverMs': 0, 'Queries': 0, 'Units': 0, 'Covers': 0, 'CoversOK': 0, 'ByName': {}}
    else:
        rep = json.load(open(out))
        print(r.stdout.strip()[:400])
    failed = rep['Failed'] or []
    if rep['Obligations'] == 0 and not failed:
        failed = [{'Fn': '(verifier)', 'Name': 'empty', 'Detail': 'no obligation was generated', 'Res': 'vacuous'}]
    focus = sorted({re.sub(r'^.*\.', '', f['Fn']) for f in failed})
    case, summ = None, 'no harness'
    for h in cfg.get('harness', []):
        case, s = replay(prop, h, focus, seed, 'thorough' if (failed or tier == 'thorough') else 'quick', tmp, 240)
        summ = s if summ == 'no harness' else summ + '; ' + s
        if case:
            break
    if failed and not case and r is not None and tier == 'quick' and any(f.get('Res') in ('unknown', 'timeout') for f in failed) and time.time() - t0 < 300:
        # solver timeouts are no verdict: once more with more time per query
        cmd[-1] = '60000'
        try:
            r2 = subprocess.run(cmd, env=goenv(), capture_output=True, text=True, timeout=max(60, 800 - (time.time() - t0)))
            rep2 = json.load(open(out))
            print('second run, 60 s per query: ' + r2.stdout.strip()[:300])
            if r2.returncode in (0, 1) and rep2['Obligations']:
                r, rep = r2, rep2
                failed = rep['Failed'] or []
        except (subprocess.TimeoutExpired, ValueError):
            pass
    known = []
    kf = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith('finding: property=%s ' % prop):
                known.append(l.strip()[len('finding: '):])
    viol = bool(failed or case)
    names = [{'function': f['Fn'], 'obligation': f['Name'], 'position': f.get('Pos', ''), 'result': f.get('Res', ''), 'detail': (f.get('Detail') or '')[:1500],
              'model': (f.get('Model') or '')[:1500]} for f in failed[:40]]
    trusted = ['govc (this verifier: translation of go/ssa to logic, its simplifier)', 'golang.org/x/tools/go/ssa and the Go type checker', 'z3, cvc5'] + \
              ['assumed contract: ' + x for x in rep['Externs'] or []]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': cfg['level'], 'wall_s': round(time.time() - t0, 2), 'violations': 1 if viol else 0,
          'assumptions': cfg['assumptions'],
          'coverage': {'obligations': rep['Obligations'], 'discharged': rep['Discharged'], 'checker_cmd': 'python3 /verif/check.py ' + prop,
                       'trusted_base': trusted, 'functions_under_contract': rep['Functions'], 'functions_inlined': rep['Inlined'],
                       'by_backend': dict(rep['BySolver'] or {}, simplifier=rep['Simplifier']), 'solver_queries': rep['Queries'], 'solver_ms': rep['SolverMs'],
                       'covers_satisfiable': '%d of %d' % (rep['CoversOK'], rep['Covers']), 'obligations_by_kind': rep['ByName'],
                       'bounded_crosscheck_not_counted_as_proof': summ, 'failed_obligations': names[:10]}}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    for k in known:
        print('KNOWN-FINDING: ' + k)
    if not viol:
        print('%s held: %d obligations in %d functions discharged; cross-check %s' % (prop, rep['Discharged'], len(rep['Functions']), summ))
        return 0
    rp = os.path.join(VERIF, 'evidence', 'replay', prop + '.json')
    json.dump({'property': prop, 'failed_obligations': names, 'verifier': r.stdout[-2000:] if r else 'timeout', 'failing_input': case, 'harness': summ,
               'reproduce': 'python3 /verif/check.py ' + prop + ' (VERIF_SEED=%d)' % seed}, open(rp, 'w'), indent=1)
    for n in names[:8]:
        print('failed obligation: %s: %s (%s) %s: %s' % (n['function'], n['obligation'], n['position'], n['result'], n['detail'][:300]))
    if case:
        print('failing input: ' + json.dumps(case)[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    else:
        print('no failing input: ' + summ[:500])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
    return 1


main()
