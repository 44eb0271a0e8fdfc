"""Runs the jobs of one check: build, explore, replay, evidence."""
import os, sys, time, json, tempfile, shutil, subprocess, multiprocessing as mp, traceback, resource, threading
from . import build, execu, ir

HERE = build.HERE
QUICK = os.environ.get('VERIF_TIER', 'quick') != 'thorough'
THOROUGH = not QUICK


def H(n):
    return os.path.join(HERE, 'harness', n)


class Job:
    def __init__(self, name, harness, included=(), entry='vp_main', params=None, mode='A', stubs=None, limits=None, opts=None,
                 defs=(), need=('<end>',), natives=None, extra_inc=(), weight=1, note='', search=True, wit=None):
        self.__dict__.update(locals())
        del self.__dict__['self']
        self.params = params or {}


def load_known():
    """known-findings file: lines 'finding: property=<id> key=<job>|<substring of message> :: text'"""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding:'):
                try:
                    head, text = ln[len('finding:'):].split('::', 1)
                    d = dict(kv.split('=', 1) for kv in head.split(None, 1)[0:1])
                    key = head.split('key=', 1)[1].strip()
                    job, msg = key.split('|', 1)
                    out.append((d['property'], job.strip(), msg.strip(), text.strip()))
                except Exception:
                    pass
    return out


_prog = {}


def _worker(idx, jobs, progs, seed, conn):
    j = jobs[idx]
    sys.setrecursionlimit(20000)
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    t = time.time()
    res = {'name': j.name}
    try:
        o = dict(j.opts or {})
        o['params'] = j.params
        e = execu.Engine(progs[(j.harness, j.defs)], j.entry, mode=j.mode, stubs=j.stubs, limits=j.limits, opts=o, natives=j.natives)
        try:
            e.run()
        except execu.Unsupported as x:
            e.complete = False
            e.notes.append('unsupported: %s' % x)
        except MemoryError:
            e.complete = False
            e.notes.append('memory limit')
        st = e.st
        res.update(dict(viol=e.viol, cands=e.cands[:3], complete=e.complete, notes=e.notes, paths=st.paths, steps=st.steps, queries=st.queries,
                        qtime=st.qtime, asserts=st.asserts, trivial=st.asserts_trivial, abs=st.asserts_abs, exact=st.asserts_exact,
                        undecided=st.undecided, infeasible=st.infeasible, cut=st.assume_cut, forks=st.forks, reached=st.reached,
                        unk_branch=st.unk_branch,
                        samples=st.samples, funcs={execu.fname(execu.demangle(k)) if not k.startswith('stub:') else k: v for k, v in st.funcs.items()}))
    except Exception as x:
        res['error'] = traceback.format_exc()[-3000:]
    res['wall'] = time.time() - t
    conn.send(res)
    conn.close()


def run_jobs(jobs, progs, seed, nproc=8, deadline=None):
    ctx = mp.get_context('fork')
    pend = sorted(range(len(jobs)), key=lambda i: -jobs[i].weight)
    run = {}
    out = [None] * len(jobs)
    while pend or run:
        while pend and len(run) < nproc:
            i = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(i, jobs, progs, seed, b))
            p.start()
            b.close()
            run[i] = (p, a, time.time())
        time.sleep(0.02)
        for i in list(run):
            p, a, t = run[i]
            lim = (jobs[i].limits or {}).get('time', 600) * 2 + 60
            if a.poll():
                try:
                    out[i] = a.recv()
                except EOFError:
                    out[i] = {'name': jobs[i].name, 'error': 'worker died'}
                p.join()
                del run[i]
            elif not p.is_alive():
                out[i] = {'name': jobs[i].name, 'error': 'worker died (memory?)'}
                del run[i]
            elif time.time() - t > lim or (deadline and time.time() > deadline):
                p.kill()
                p.join()
                out[i] = {'name': jobs[i].name, 'error': None, 'killed': True, 'wall': time.time() - t}
                del run[i]
    return out


def native_replay(j, v, tmp, seed, secs=8):
    """-> (confirmed, text, inputs text)"""
    env = dict(os.environ)
    env['VP_PARAMS'] = ','.join('%s=%d' % kv for kv in j.params.items())
    env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=0'
    f = os.path.join(tmp, 'cex.txt')
    with open(f, 'w') as o:
        for n, s, val in v.get('inputs', []):
            o.write('%s %x\n' % (n, val if type(val) is int else 0))
    log = ''
    bins = [build.native(j.harness, j.included, tmp, False, j.defs, j.extra_inc), build.native(j.harness, j.included, tmp, True, j.defs, j.extra_inc)]

    def judge(p):
        return p.returncode in (41, 42, 43) or p.returncode < 0 or ('VP-CRASH' in p.stdout) or ('AddressSanitizer' in p.stdout)

    def go(cmd, to):
        try:
            return subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=to)
        except subprocess.TimeoutExpired as e:
            return subprocess.CompletedProcess(cmd, 43, 'VP-TIMEOUT', '')
    if v.get('inputs') or v['status'] == 'sat':
        for b in bins:
            p = go([b, 'replay', f], 60)
            if judge(p):
                return True, p.stdout[-2500:], open(f).read(), 'solver model'
    if j.search:
        procs = []
        for k in range(4):
            for b in bins:
                procs.append(subprocess.Popen([b, 'search', str(seed * 100 + k), str(secs), f if v.get('inputs') else '-'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace'))
        hit = None
        for p in procs:
            try:
                o, _ = p.communicate(timeout=secs + 45)
            except subprocess.TimeoutExpired:
                p.kill()
                continue
            if hit is None and (p.returncode in (41, 42, 43) or p.returncode < 0 or 'AddressSanitizer' in o):
                hit = o
        if hit is not None:
            ins = '\n'.join(l for l in hit.split('\n') if '#' in l and len(l.split()) == 2 and not l.startswith(' '))
            return True, hit[-2500:], ins, 'native search seeded from the solver counterexample'
    return False, log, open(f).read(), ''


def _inconclusive(prop, tier, seed, level, bounds, assumptions, why, t0):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': 0,
          'coverage': {'explanation': 'nothing was decided: ' + why, 'evaluations': 0, 'distinct_nontrivial': 0, 'rule': 'none', 'samples': [], 'bounds': bounds}}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def main(prop, jobs, technique, bounds, assumptions, level='other', explain='', argv=None):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    code = 0
    try:
        code = _main(prop, jobs, technique, bounds, assumptions, level, explain, tier, seed, t0, tmp)
    except build.BuildError as e:
        print('%s INCONCLUSIVE: the harness does not build against this tree: %s' % (prop, str(e)[-1500:]))
        _inconclusive(prop, tier, seed, level, bounds, assumptions, 'build: ' + str(e)[-1500:], t0)
    except Exception as e:
        print('%s INCONCLUSIVE: %s' % (prop, traceback.format_exc()))
        _inconclusive(prop, tier, seed, level, bounds, assumptions, traceback.format_exc()[-1500:], t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def _main(prop, jobs, technique, bounds, assumptions, level, explain, tier, seed, t0, tmp):
    only = os.environ.get('VP_ONLY')
    if only:
        jobs = [j for j in jobs if only in j.name]
    verbose = os.environ.get('VP_VERBOSE')
    progs = {}
    for j in jobs:
        k = (j.harness, j.defs)
        if k not in progs:
            progs[k] = execu.Program(build.ir_text(j.harness, j.included, tmp, j.defs, j.extra_inc))
    tb = time.time() - t0
    res = run_jobs(jobs, progs, seed)
    known = [k for k in load_known() if k[0] == prop]
    nviol = 0
    knownhit = []
    unconfirmed = []
    confirmed = []
    errors = []
    vacuous = []
    for j, r in zip(jobs, res):
        if r.get('error') or r.get('killed'):
            errors.append('%s: %s' % (j.name, r.get('error') or 'killed at time limit'))
            continue
        if not r['viol'] and r['complete']:
            for n in j.need:
                if not r['reached'].get(n):
                    vacuous.append('%s: never reached %s' % (j.name, n))
    # violations: replay natively
    todo = []
    for j, r in zip(jobs, res):
        for v in (r.get('viol') or []):
            todo.append((0, j, r, v))
        for v in (r.get('cands') or [])[:1]:
            todo.append((1, j, r, v))
    todo.sort(key=lambda x: x[0])
    replay_path = os.path.join(HERE, 'evidence', prop + '.replay.json')
    budget = time.time() + (150 if tier == 'quick' else 1200)
    tried = {}
    for pri, j, r, v in todo:
        key = (v['msg'], pri)
        tried[key] = tried.get(key, 0) + 1
        if tried[key] > (3 if pri == 0 else 2):
            unconfirmed.append('%s: %s (%s, not replayed: same message as others)' % (j.name, v['msg'], v['status']))
            continue
        kn = [k for k in known if (k[1] == '*' or k[1] == j.name) and k[2] in v['msg']]
        if kn:
            knownhit.append((kn[0], j.name, v['msg']))
            continue
        if confirmed and pri == 1:
            continue
        if len(confirmed) >= 2 or time.time() > budget:
            break
        ok, txt, ins, how = native_replay(j, v, tmp, seed)
        if ok:
            confirmed.append({'job': j.name, 'params': j.params, 'message': v['msg'], 'inputs': ins, 'native_output': txt, 'how': how, 'solver_status': v['status']})
        else:
            unconfirmed.append('%s: %s (%s)' % (j.name, v['msg'], v['status']))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tot = lambda k: sum((r.get(k) or 0) for r in res)
    funcs = {}
    for r in res:
        for k, v in (r.get('funcs') or {}).items():
            funcs[k] = max(v, funcs.get(k, 0))
    incomplete = [{'job': j.name, 'notes': r.get('notes')} for j, r in zip(jobs, res) if not r.get('complete') and not r.get('viol')]
    samples = []
    for j, r in zip(jobs, res):
        for s in (r.get('samples') or [])[:1]:
            samples.append(dict(s, job=j.name))
    cov = {
        'explanation': explain + ' Verdict per job: every symbolic path of the harness over the listed functions is enumerated and each assertion (and each memory access / '
                       'division) is discharged by z3 for all inputs within the bounds; paths are infeasible-pruned by z3.',
        'evaluations': tot('paths'),
        'distinct_nontrivial': tot('paths') - tot('cut') - tot('infeasible'),
        'rule': 'one evaluation = one distinct symbolic path (a distinct sequence of solver-decided branch outcomes); non-trivial = it satisfies the harness assumptions',
        'samples': samples[:8],
        'jobs': [dict(name=j.name, params=j.params, mode=j.mode, paths=r.get('paths'), asserts=r.get('asserts'), discharged_by_rewriting=r.get('trivial'),
                      discharged_abstract=r.get('abs'), discharged_bitprecise=r.get('exact'), undecided=r.get('undecided'), queries=r.get('queries'),
                      solver_s=round(r.get('qtime') or 0, 2), complete=r.get('complete'), wall_s=round(r.get('wall') or 0, 2), reached=r.get('reached')) for j, r in zip(jobs, res)],
        'functions_encoded': sorted(k for k in funcs if not k.startswith('stub:') and not k.startswith('std::') and not k.startswith('vp')),
        'functions_stubbed': sorted(k[5:] for k in funcs if k.startswith('stub:')),
        'bounds': bounds,
        'obligations': tot('asserts'), 'discharged': tot('trivial') + tot('abs') + tot('exact'),
        'queries': tot('queries'), 'solver_s': round(tot('qtime'), 2), 'undecided': tot('undecided'),
        'incomplete_jobs': incomplete, 'unconfirmed_counterexamples': unconfirmed, 'errors': errors, 'vacuity_failures': vacuous,
        'build_s': round(tb, 2),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': len(confirmed)}
    if confirmed:
        ev['violation_detail'] = confirmed
        with open(replay_path, 'w') as f:
            json.dump(confirmed, f, indent=1)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s [%s] jobs=%d paths=%d asserts=%d queries=%d solver=%.1fs undecided=%d incomplete=%d unconfirmed=%d wall=%.1fs' % (
        prop, tier, len(jobs), tot('paths'), tot('asserts'), tot('queries'), tot('qtime'), tot('undecided'), len(incomplete), len(unconfirmed), time.time() - t0))
    if verbose:
        big = sorted(cov['jobs'], key=lambda c: -c['wall_s'])
        for c in big:
            if c['undecided'] or not c['complete'] or c is big[0] or c['wall_s'] > 0.7 * big[0]['wall_s'] or verbose == '2':
                print('   ', c['name'], {k: v for k, v in c.items() if k not in ('name', 'params', 'mode')})
        for k in ('functions_encoded', 'functions_stubbed'):
            print('   ', k, cov[k])
    for x in incomplete:
        print('  INCOMPLETE', x)
    for x in unconfirmed:
        print('  UNCONFIRMED', x)
    for x in errors:
        print('  ERROR', x)
    for x in vacuous:
        print('  VACUOUS', x)
    seen = set()
    for k, jn, m in knownhit:
        if k not in seen:
            seen.add(k)
            print('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
    if confirmed:
        for c in confirmed:
            print('  counterexample (%s, job %s %s): %s' % (c['how'], c['job'], c['params'], c['message']))
            print('    native: ' + c['native_output'][-600:].replace('\n', '\n    '))
        print('VIOLATION property=%s replay=%s' % (prop, replay_path))
        return 1
    return 0
