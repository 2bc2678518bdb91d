"""Runs the symbolic jobs of one property, replays violations natively, writes the evidence file."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
from . import build
from .build import VERIF, BUILD

KNOWN = os.path.join(VERIF, 'known_findings.json')


class Job:
    """One symbolic execution: harness file, entry, parameters, data, seconds."""

    def __init__(self, h, e, t=60, core=True, blobs=None, steps=200000, label=None, **p):
        self.h, self.e, self.p, self.t, self.core = h, e, p, t, core
        self.blobs = blobs or {}
        self.steps = steps
        self.label = label or (e + '(' + ', '.join('%s=%s' % kv for kv in sorted(p.items())) + ')')


def run_job(job, bc, ulsym, work, t):
    n = hashlib.sha1((job.label + json.dumps(job.p, sort_keys=True)).encode() + b''.join(job.blobs.values())).hexdigest()[:16]
    out = os.path.join(work, n + '.json')
    cmd = [ulsym, bc, '--entry=' + job.e, '--time=%g' % t, '--path-steps=%d' % job.steps, '--samples=3', '--out=' + out]
    cmd += ['--param=%s=%d' % kv for kv in job.p.items()]
    for k, v in job.blobs.items():
        bp = os.path.join(work, n + '.' + k)
        with open(bp, 'wb') as f:
            f.write(v)
        cmd.append('--blob=%s=%s' % (k, bp))
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t * 2 + 60)
        err = r.stdout.decode(errors='replace')[-600:]
        rc = r.returncode
    except subprocess.TimeoutExpired:
        err, rc = 'engine exceeded its time', -1
    try:
        with open(out) as f:
            j = json.load(f)
        os.unlink(out)
    except (OSError, ValueError):
        j = {'complete': False, 'why': 'engine stopped (%s): %s' % (rc, err), 'violations': [], 'samples': [], 'functions': [], 'covers': {}}
    return j


def replay_text(job, byts):
    s = 'harness %s\nentry %s\nbytes %s\n' % (job.h, job.e, byts)
    for k, v in job.p.items():
        s += 'param %s %d\n' % (k, v)
    for k, v in job.blobs.items():
        s += 'blob %s %s\n' % (k, v.hex())
    return s


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0',
           UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1')


def run_native(exe, path, timeout=20, wrap=()):
    try:
        r = subprocess.run(list(wrap) + [exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=ENV)
        return r.returncode, r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode(errors='replace')


def confirm(job, v, exe, path):
    """Runs the counterexample on the real code. Returns (reproduced, text)."""
    rc, out = run_native(exe, path)
    if rc == 'timeout':
        return True, 'does not terminate within 20 s'
    if rc in (0, 11):
        if v['kind'] in ('uninit', 'memory'):
            plain = build.native([job.h], asan=False).get(job.h)
            rc2, out2 = run_native(plain, path, 60, ['valgrind', '-q', '--error-exitcode=97'])
            if rc2 not in (0, 11):
                return True, 'valgrind: ' + out2[-600:]
        return False, 'native run ends with %s: %s' % (rc, out[-200:])
    if rc == 10:
        m = re.search(r'^ASSERT (.*)$', out, re.M)
        return True, m.group(1) if m else 'assertion'
    m = re.search(r'(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|terminate called[^\n]*(?:\n[^\n]*)?|Assertion [^\n]*)', out)
    return True, 'exit %s %s' % (rc, m.group(1) if m else out[-300:])


def show(bs):
    return repr(bytes.fromhex(bs))


def load_known(prop):
    try:
        with open(KNOWN) as f:
            return [k for k in json.load(f)['findings'] if k['property'] == prop and k.get('status', 'known') == 'known']
    except OSError:
        return []


def matches(k, job, v):
    if k.get('entry') and k['entry'] != job.e:
        return False
    if k.get('msg') and k['msg'] != v['msg']:
        return False
    if k.get('where') and k['where'] not in v['where']:
        return False
    for a, b in k.get('params', {}).items():
        if job.p.get(a) != b:
            return False
    if k.get('bytes_re') and not re.search(k['bytes_re'].encode('latin1'), bytes.fromhex(v['bytes']), re.S):
        return False
    return True


def check(prop, title, jobs, tier, seed, bounds, budget, assumptions, describe=None):
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    engres = {}

    def engjob():
        try:
            engres['exe'] = build.engine()
        except Exception as e:
            engres['err'] = e
    eng = threading.Thread(target=engjob)
    eng.start()
    harnesses = sorted({j.h for j in jobs})
    natres = {}

    def natjob():
        try:
            natres['exe'] = build.native(harnesses)
        except Exception as e:  # reported below
            natres['err'] = str(e)
    nat = threading.Thread(target=natjob)
    bcs, errs = build.bitcode(harnesses)
    nat.start()
    eng.join()
    if 'err' in engres:
        raise engres['err']
    ulsym = engres['exe']
    tb = time.time() - t0
    work = tempfile.mkdtemp(prefix='job-', dir=BUILD)
    results = []
    deadline = time.time() + budget
    try:
        def one(j):
            if j.h not in bcs:
                return j, {'complete': False, 'why': 'harness does not compile against the current sources', 'violations': [], 'samples': [], 'functions': [], 'covers': {}}
            left = deadline - time.time()
            if left < 2:
                return j, {'complete': False, 'why': 'not started: budget used up', 'violations': [], 'samples': [], 'functions': [], 'covers': {}}
            return j, run_job(j, bcs[j.h], ulsym, work, min(j.t, left))
        # core jobs first, long ones first within a class
        order = sorted(jobs, key=lambda j: (not j.core, -j.t))
        with ThreadPoolExecutor(build.NJ) as ex:
            results = list(ex.map(one, order))
        nat.join()
        exes = natres.get('exe', {})
        if natres.get('err'):
            print('native build failed:', natres['err'][-2000:])
        # ---- violations
        known = load_known(prop)
        hit_known, real, unconf = {}, [], []
        seen = set()
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(prop + '-'):
                os.unlink(os.path.join(rdir, f))
        nrep = 0
        for j, r in results:
            for v in r['violations']:
                kn = [k for k in known if matches(k, j, v)]
                if kn:
                    hit_known[id(kn[0])] = kn[0]
                    continue
                key = (j.e, v['kind'], v['msg'], v['where'][:120], j.p.get('lang'))
                if key in seen or nrep >= 12:
                    continue
                seen.add(key)
                nrep += 1
                path = os.path.join(rdir, '%s-%d.txt' % (prop, nrep))
                with open(path, 'w') as f:
                    f.write(replay_text(j, v['bytes']))
                    f.write('# %s: %s\n# at %s\n# job %s\n' % (v['kind'], v['msg'], v['where'], j.label))
                if j.h not in exes:
                    unconf.append((j, v, path, 'no native binary'))
                    continue
                ok, text = confirm(j, v, exes[j.h], path)
                (real if ok else unconf).append((j, v, path, text))
        # ---- validate sample traces against the real code
        validated, mismatched = 0, []
        samples = []
        todo = {}
        for j, r in results:
            for s in r['samples'][:3]:
                if j.h in exes:
                    todo.setdefault(j.h, []).append((j, s))
        k = 0
        cap = 240 if tier == 'quick' else 2000
        for h, l in todo.items():
            l = l[:cap]
            paths = []
            for j, s in l:
                p = os.path.join(work, 's%d.txt' % k)
                k += 1
                with open(p, 'w') as f:
                    f.write(replay_text(j, s['bytes']))
                paths.append(p)
            chunks = [(l[i::build.NJ], paths[i::build.NJ]) for i in range(build.NJ)]

            def val(c):
                ls, ps = c
                if not ps:
                    return []
                try:
                    r = subprocess.run([exes[h]] + ps, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV, timeout=200)
                    out = r.stdout.decode(errors='replace')
                except subprocess.TimeoutExpired as e:
                    out = (e.stdout or b'').decode(errors='replace')
                res, cur = [], []
                for line in out.splitlines():
                    if line.startswith('END '):
                        _, i, rc = line.split()
                        res.append((ls[int(i)], int(rc), cur))
                        cur = []
                    else:
                        cur.append(line)
                return res
            with ThreadPoolExecutor(build.NJ) as ex:
                for res in ex.map(val, chunks):
                    for (j, s), rc, lines in res:
                        log = [[int(a) for a in x.split()[1:]] for x in lines if x.startswith('LOG ')]
                        if rc == 0 and log == s['log'] and lines and lines[-1] == 'DONE':
                            validated += 1
                            if len(samples) < 12:
                                samples.append({'job': j.label, 'input': show(s['bytes']), 'outcome': s['log'][:40]})
                        else:
                            mismatched.append((j, s, rc, lines[-5:]))
        # ---- report
        tot = lambda key: int(sum(r.get(key, 0) for _, r in results))
        fns = {}
        for _, r in results:
            for n, c, t in r['functions']:
                a = fns.setdefault(n, [0, t])
                a[0] = max(a[0], c)
        names = demangle(sorted(fns))
        flist = sorted('%s %d/%d' % (names[n], c, t) for n, (c, t) in fns.items()
                       if 'ulight' in names[n])
        done = [j.label for j, r in results if r['complete']]
        notdone = [(j.label, r['why'], int(r.get('paths', 0))) for j, r in results if not r['complete']]
        corefail = [(j.label, r['why']) for j, r in results if not r['complete'] and j.core]
        covers = {}
        for _, r in results:
            for c, n in r['covers'].items():
                covers[c] = covers.get(c, 0) + n
        cov = {
            'states': tot('paths') + tot('forks'),
            'transitions': tot('steps'),
            'traces_validated_against_impl': validated,
            'samples': samples,
            'paths': tot('paths'), 'paths_merged_into_equivalent_ones': tot('pruned'), 'forks': tot('forks'),
            'assertions_evaluated': tot('asserts'),
            'solver_queries': tot('queries'), 'solver_sat': tot('sat'), 'solver_unsat': tot('unsat'), 'solver_unknown': tot('unknown'),
            'solver_cache_hits': tot('cache_hits'),
            'truth_tables_confirmed_by_solver': tot('table_obligations'),
            'solver_s': round(sum(r.get('solver_s', 0) for _, r in results), 2),
            'engine_s': round(sum(r.get('wall_s', 0) for _, r in results), 2),
            'jobs': len(jobs), 'jobs_exhausted': len(done),
            'jobs_cut_short': ['%s: %s (%d paths explored)' % x for x in notdone][:60],
            'bounds': bounds,
            'functions_encoded': flist,
            'reachability_witnesses': covers,
            'replayed_counterexamples': len(real) + len(unconf),
        }
        if errs:
            cov['harness_compile_errors'] = {h: e[-600:] for h, e in errs.items()}
        if describe:
            cov['explanation'] = describe
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
              'wall_s': round(time.time() - t0, 2), 'assumptions': assumptions,
              'violations': len(real)}
        cov['violation_details'] = ['%s: %s on %s' % (j.label, t, show(v['bytes'])) for j, v, p, t in real]
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s (%s): %s' % (prop, tier, title))
        print('  built in %.1f s; %d jobs, %d exhausted; %d paths, %d merged, %d instructions, %d queries, %.1f s in the solver; %d traces validated natively'
              % (tb, len(jobs), len(done), tot('paths'), tot('pruned'), tot('steps'), tot('queries'), cov['solver_s'], validated))
        for l, w, n in notdone[:20]:
            print('  cut short: %s: %s (%d paths)' % (l, w, n))
        for h, e in errs.items():
            print('  harness %s not encodable: %s' % (h, e[:300]))
        for j, s, rc, lines in mismatched[:5]:
            print('  TRACE MISMATCH %s input %s native %s %s, engine %s' % (j.label, show(s['bytes']), rc, lines, s['log'][:10]))
        for k in hit_known.values():
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        for j, v, p, t in unconf:
            print('  UNCONFIRMED (not reported): %s: %s on %s: %s' % (j.label, v['msg'], show(v['bytes']), t))
        for j, v, p, t in real:
            print('  %s: %s: %s' % (j.label, v['kind'], t))
            print('    input %s at %s' % (show(v['bytes']), v['where'][:300]))
            print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(p, VERIF)))
        print('  %.1f s' % (time.time() - t0))
        return {'real': real, 'unconf': unconf, 'mismatched': mismatched, 'corefail': corefail, 'results': results, 'errs': errs}
    finally:
        nat.join()
        shutil.rmtree(work, ignore_errors=True)
        build.prune()


def demangle(ns):
    if not ns:
        return {}
    r = subprocess.run(['c++filt'], input='\n'.join(ns), stdout=subprocess.PIPE, text=True)
    o = r.stdout.split('\n')
    return {n: short(o[i]) for i, n in enumerate(ns)}


def short(s):
    s = s.replace('std::basic_string_view<char8_t, std::char_traits<char8_t> >', 'u8string_view')
    return s if len(s) < 200 else s[:200] + '...'
