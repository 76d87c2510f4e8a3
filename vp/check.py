"""Driver of one check: build, explore, replay, report."""
import os
import re
import sys
import json
import time
import shutil
import signal
import subprocess
import threading
from concurrent.futures import ThreadPoolExecutor
from . import build, fp
from .build import VERIF, VARIANTS, BuildError
OUT = os.environ.get('VP_BUILD', VERIF)
# stop soon after the first confirmed violation (the thorough tier goes on)
FIRST = os.environ.get('VP_FIRST', '' if 'thorough' in sys.argv[2:3] else '1') not in ('', '0')

PY = sys.executable
NTOK = int(os.environ.get('VP_JOBS', os.cpu_count() or 4))


class Task:
    """one harness in one configuration"""

    def __init__(self, src, variant='default', name=None, flags=(), threads=1, races=False, mode='real', secs=240, reach=(),
                 bound='', tiers=('quick', 'thorough'), native='asan', cfg=None, cosim=48, opt=None):
        self.src, self.variant, self.flags = src, variant, list(flags)
        self.name = name or '%s-%s' % (os.path.splitext(src)[0], variant)
        self.cfg = dict(threads=threads, races=races, mode=mode)
        self.cfg.update(cfg or {})
        self.secs, self.reach, self.bound, self.tiers, self.native, self.cosim = secs, list(reach), bound, tiers, native, cosim
        self.opt = opt or []


class Jar:
    def __init__(self, n):
        self.rd, self.wr = os.pipe()
        os.set_blocking(self.rd, False)
        os.set_inheritable(self.rd, True)
        os.set_inheritable(self.wr, True)
        os.write(self.wr, b'x' * n)

    def get(self):
        while True:
            try:
                if os.read(self.rd, 1):
                    return
            except BlockingIOError:
                time.sleep(0.02)

    def put(self):
        os.write(self.wr, b'x')


class Result:
    def __init__(self):
        self.recs = []
        self.fns = set()
        self.err = None
        self.cosim_ok = 0
        self.cosim_bad = []
        self.viol = []          # confirmed
        self.unconf = []
        self.wall = 0


def demangle(names):
    p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return p.stdout.split('\n')


class Check:
    def __init__(self, pid, tasks, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.tasks = [t for t in tasks if tier in t.tiers]
        self.dir = os.path.join(OUT, 'build', pid + ('' if tier == 'quick' else '_thorough'))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.jar = Jar(NTOK)
        self.scale = float(os.environ.get('VP_TIME', '1')) * (1 if tier == 'quick' else 8)

    # ------------------------------------------------------------ build
    def build_ir(self, t):
        inc = build.include_dir(t.variant, self.dir)
        self.jar.get()
        try:
            build.run(build.ir_cmd(os.path.join(VERIF, 'harness', t.src), inc, VARIANTS[t.variant][2] + t.flags + t.opt, self.path(t, '.ll')))
        finally:
            self.jar.put()

    def build_native(self, t, kind=None):
        kind = kind or t.native
        inc = build.include_dir(t.variant, self.dir)
        extra = {'asan': ['-fsanitize=address', '-fno-omit-frame-pointer'], 'plain': ['-g'],
                 'race': ['-fsanitize=thread', '-DVP_OWN_OMP', '-c']}[kind]
        out = self.path(t, '.' + kind)
        self.jar.get()
        try:
            if kind == 'race':
                build.run(build.native_cmd(os.path.join(VERIF, 'harness', t.src), inc, VARIANTS[t.variant][2] + t.flags, out + '.o', extra))
                build.run(['clang++-18', '-O1', '-c', os.path.join(VERIF, 'harness', 'omp_rt.cpp'), '-o', out + '.rt.o'])
                build.run(['clang++-18', out + '.o', out + '.rt.o', '-o', out])
            else:
                build.run(build.native_cmd(os.path.join(VERIF, 'harness', t.src), inc, VARIANTS[t.variant][2] + t.flags, out, extra))
        finally:
            self.jar.put()
        return out

    def path(self, t, ext):
        return os.path.join(self.dir, t.name + ext)

    # ------------------------------------------------------------ explore
    def explore(self, t, res):
        if t.cfg.get('mode') == 'fp':
            self.jar.get()
            try:
                res.recs, fns = fp.explore(self.path(t, '.ll'), self.path(t, ''), t.secs * self.scale)
                res.fns = set(fns)
            finally:
                self.jar.put()
            return
        cfg = dict(t.cfg)
        cfg['seed'] = self.seed
        secs = t.secs * self.scale
        job = dict(ir=self.path(t, '.ll'), entry='vp_main', cfg=cfg, out=self.path(t, '.jsonl'), seconds=secs)
        json.dump(job, open(self.path(t, '.job'), 'w'))
        for e in ('.jsonl', '.jsonl.fns'):
            if os.path.exists(self.path(t, e)):
                os.unlink(self.path(t, e))
        self.jar.get()
        try:
            if FIRST and self.found.is_set():
                return
            log = open(self.path(t, '.log'), 'w')
            p = subprocess.Popen([PY, '-m', 'vp.explore_main', self.path(t, '.job'), str(self.jar.rd), str(self.jar.wr)],
                                 pass_fds=(self.jar.rd, self.jar.wr), cwd=VERIF, stdout=log, stderr=subprocess.STDOUT,
                                 start_new_session=True)
            try:
                if FIRST:
                    self.wait_first(t, p, secs + 60)
                else:
                    p.wait(timeout=secs + 60)
            except subprocess.TimeoutExpired:
                res.err = 'exploration did not stop in time'
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            log.close()
        finally:
            self.jar.put()
        try:
            with open(self.path(t, '.jsonl')) as fh:
                for l in fh:
                    try:
                        d = json.loads(l)
                    except ValueError:
                        continue
                    if d['end'] != 'meta':
                        res.recs.append(d)
            with open(self.path(t, '.jsonl.fns')) as fh:
                res.fns = set(fh.read().split('\n')) - {''}
        except OSError:
            pass
        if not res.recs:
            res.err = (res.err or '') + ' no result: ' + open(self.path(t, '.log')).read()[-600:]

    def wait_first(self, t, p, secs):
        """for VP_FIRST: ends this exploration soon after its first violation, and as soon as another task has a confirmed one"""
        t0 = time.time()
        seen = None
        while True:
            try:
                p.wait(timeout=2)
                return
            except subprocess.TimeoutExpired:
                if time.time() - t0 > secs:
                    raise
            if self.found.is_set() or (seen and time.time() - seen > 10):
                for _ in range(NTOK):  # those its processes hold are lost
                    self.jar.put()
                return
            if not seen:
                try:
                    with open(self.path(t, '.jsonl')) as fh:
                        if any('"violations": [{' in l for l in fh):
                            seen = time.time()
                except OSError:
                    pass

    # ------------------------------------------------------------ native runs
    def native(self, t, exe, inputs, ints, tag, valgrind=False):
        f = self.path(t, '.in_%s' % tag)
        with open(f, 'w') as fh:
            for k, v in ints:
                fh.write('%s %d\n' % (k, v))
            for k, v in (inputs or {}).items():
                fh.write('%s %s\n' % (k, float(v).hex()))
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0', OMP_NUM_THREADS='1')
        cmd = [exe, f]
        if valgrind:
            cmd = ['valgrind', '-q', '--error-exitcode=9'] + cmd
        scratch = self.path(t, '.run_%s' % tag)
        os.makedirs(scratch, exist_ok=True)
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=120 if valgrind else 20, env=env, cwd=scratch)
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            rc, out, err = -99, '', 'timeout'
        shutil.rmtree(scratch, ignore_errors=True)
        return rc, out, err, f

    def reproduces(self, t, v, exe, tag):
        rc, out, err, f = self.native(t, exe, v['inputs'], v['ints'], tag)
        if rc == 77:
            return False, f, 'assumption not met natively'
        fails = re.findall(r'^VPFAIL (.*)$', err, re.M)
        if fails:
            return True, f, 'VPFAIL ' + fails[0]
        if rc not in (0, 1):
            return True, f, 'abnormal end %d: %s' % (rc, err.strip()[-300:])
        if 'AddressSanitizer' in err:
            return True, f, err.strip().split('\n')[1][:200] if len(err.strip().split('\n')) > 1 else 'AddressSanitizer'
        return False, f, 'native run passes'

    def replay(self, t, res):
        viols = [v for r in res.recs for v in r['violations']]
        if not viols:
            return
        exe = self.path(t, '.' + t.native)
        seen = {}
        viols.sort(key=lambda v: v['label'])
        for k, v in enumerate(viols):
            key = (v['label'], json.dumps(v['ints']))
            lab = v['label']
            if seen.get(lab, 0) >= 3:
                continue
            if v['kind'] == 'race':
                rexe = self.path(t, '.race')
                if not os.path.exists(rexe):
                    self.build_native(t, 'race')
                ok, f, why = self.reproduces(t, v, rexe, 'v%d' % k)
            else:
                ok, f, why = self.reproduces(t, v, exe, 'v%d' % k)
                if not ok and v['label'].startswith('uninit'):
                    pexe = self.path(t, '.plain')
                    if not os.path.exists(pexe):
                        self.build_native(t, 'plain')
                    rc, out, err, f = self.native(t, pexe, v['inputs'], v['ints'], 'v%d' % k, valgrind=True)
                    ok, why = rc == 9, 'valgrind: ' + err.strip()[:200]
            (res.viol if ok else res.unconf).append(dict(v, task=t.name, replay=f, why=why))
            if ok:
                seen[lab] = seen.get(lab, 0) + 1
            if len(res.viol) > 12 or len(res.unconf) > 80:
                break

    def cosim(self, t, res):
        exe = self.path(t, '.' + t.native)
        ws = [r for r in res.recs if 'witness' in r and r.get('outs') is not None]
        # spread over the paths
        if len(ws) > t.cosim:
            step = len(ws) / t.cosim
            ws = [ws[int(i * step)] for i in range(t.cosim)]

        def one(iw):
            i, w = iw
            self.jar.get()
            try:
                return w, self.native(t, exe, w['witness'], w['ints'], 'c%d' % i)
            finally:
                self.jar.put()
        with ThreadPoolExecutor(NTOK) as ex:
            for w, (rc, out, err, f) in ex.map(one, enumerate(ws)):
                got = [l.split(' ', 2)[1:] for l in out.split('\n') if l.startswith('VPOUT ')]
                bad = None
                if rc not in (0,) and not ('VPFAIL' in err and rc == 1):
                    bad = 'native exit %d %s' % (rc, err[-200:])
                elif len(got) != len(w['outs']):
                    bad = 'native run took another path (%d values, expected %d)' % (len(got), len(w['outs']))
                else:
                    for (n, gv), (m, mv) in zip(got, w['outs']):
                        g = float(gv)
                        mv = float(mv)
                        if n != m or not (g == mv or (g != g and mv != mv) or abs(g - mv) <= 1e-6 * max(1.0, abs(g), abs(mv))):
                            bad = '%s: native %r, model %r' % (n, g, mv)
                            break
                if bad:
                    res.cosim_bad.append(dict(task=t.name, why=bad, inputs=w['witness'], ints=w['ints'], file=f))
                else:
                    res.cosim_ok += 1
                    os.unlink(f)

    def fallback(self, t, res):
        """native runs at sample points of paths the machine could not decide: a failure there is a real violation"""
        exe = self.path(t, '.' + t.native)
        n = 0
        for r in res.recs:
            for s in (r.get('samples') or [])[:2]:
                n += 1
                if n > 40 or res.viol:
                    return
                v = dict(label='undecided obligation', kind='check', info=str(r['undecided'][:1]), inputs=s, ints=r['ints'])
                ok, f, why = self.reproduces(t, v, exe, 'u%d' % n)
                if ok:
                    res.viol.append(dict(v, task=t.name, replay=f, why=why))

    def run_task(self, t, res):
        t0 = time.time()
        nat = {}

        def bn():
            try:
                self.build_native(t)
            except BuildError as e:
                nat['err'] = str(e)
        th = threading.Thread(target=bn)
        try:
            self.build_ir(t)
            th.start()
            self.explore(t, res)
        except BuildError as e:
            res.err = 'build: ' + str(e)
        if th.ident:
            th.join()
        if FIRST and self.found.is_set():
            pass
        elif nat:
            res.err = (res.err or '') + ' native build: ' + nat['err']
        elif res.recs:
            self.replay(t, res)
            if res.viol:
                self.found.set()
            self.cosim(t, res)
            if any(r['undecided'] for r in res.recs):
                self.fallback(t, res)
        res.wall = time.time() - t0

    # ------------------------------------------------------------ report
    def run(self):
        t0 = time.time()
        results = [Result() for _ in self.tasks]
        self.found = threading.Event()
        ths = []
        for t, r in zip(self.tasks, results):
            th = threading.Thread(target=self.run_task, args=(t, r))
            th.start()
            ths.append(th)
        for th in ths:
            th.join()
        return self.report(results, time.time() - t0)

    def report(self, results, wall):
        known = load_known(self.pid)
        tot = {}
        und, errs, viol, unconf, bad = [], [], [], [], []
        fns = set()
        paths = 0
        samples = []
        ends = {}
        cos = 0
        tinfo = []
        for t, r in zip(self.tasks, results):
            st = {}
            for rec in r.recs:
                paths += 1
                ends[rec['end']] = ends.get(rec['end'], 0) + 1
                for k, v in rec['stats'].items():
                    st[k] = st.get(k, 0) + v
                und += ['%s: %s' % (t.name, u) for u in rec['undecided']]
                if rec['end'] == 'error':
                    und.append('%s: %s' % (t.name, rec['detail']))
            for k, v in st.items():
                tot[k] = tot.get(k, 0) + v
            reach = set(x for rec in r.recs for x in rec['reach'])
            miss = [x for x in t.reach if x not in reach]
            if miss:
                und.append('%s: not reached: %s' % (t.name, ', '.join(miss)))
            if r.err:
                errs.append('%s: %s' % (t.name, r.err))
            fns |= r.fns
            viol += r.viol
            unconf += r.unconf
            bad += r.cosim_bad
            cos += r.cosim_ok
            for rec in r.recs:
                if 'witness' in rec and len(samples) < 6:
                    samples.append(dict(task=t.name, path_input=rec['witness'], choices=rec['ints'], observed=rec['outs'][:6]))
            tinfo.append(dict(task=t.name, configuration=t.variant, bound=t.bound, paths=len(r.recs), branches=st.get('branches', 0),
                              obligations=st.get('obl', 0), queries=st.get('queries', 0), solver_s=round(st.get('solver_s', 0), 2),
                              wall_s=round(r.wall, 1), assertions=sorted(reach)))
        newv, kn = [], []
        for v in viol:
            k = match_known(known, v)
            (kn if k else newv).append((k, v))
        names = sorted(x for x in demangle(sorted(fns)) if 'OpenMps' in x or 'InputFromCsv' in x or 'OutputToCsv' in x or 'Load' in x)
        short = sorted(set(re.sub(r'\(anonymous namespace\)::', '', x)[:140] for x in names))
        decided = tot.get('obl', 0)
        cov = dict(
            states=paths, transitions=tot.get('branches', 0), traces_validated_against_impl=cos,
            samples=samples or ['none'],
            functions_encoded=len(fns), functions_encoded_openmps=short[:80],
            queries=tot.get('queries', 0), queries_unsat=tot.get('unsat', 0), queries_sat=tot.get('sat', 0), queries_unknown=tot.get('unknown', 0),
            solver_s=round(tot.get('solver_s', 0), 2),
            obligations=decided, obligations_by_solver=tot.get('obl_z3', 0), obligations_by_normal_form=tot.get('obl_norm', 0),
            obligations_by_interval=tot.get('obl_int', 0), obligations_concrete=tot.get('obl_conc', 0),
            branch_by_fact=tot.get('br_fact', 0), branch_by_interval=tot.get('br_interval', 0), branch_by_witness=tot.get('br_sample', 0),
            branch_by_solver=tot.get('br_z3', 0), branch_assumed_feasible=tot.get('assumed_feasible', 0), forks=tot.get('forks', 0),
            path_ends=ends, tasks=tinfo, inconclusive=len(und) + len(errs), inconclusive_examples=(errs + und)[:12],
            unconfirmed_counterexamples=len(unconf), model_mismatches=len(bad), known_findings=len(kn))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov,
                  assumptions=ASSUME, wall_s=round(wall, 2), violations=len(newv))
        os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
        with open(os.path.join(OUT, 'evidence', self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
            fh.write('\n')
        print('%s: %d paths, %d branches, %d obligations (%d by solver), %d queries, %.1f s solver, %d replays agree, wall %.1f s' % (
            self.pid, paths, tot.get('branches', 0), decided, tot.get('obl_z3', 0), tot.get('queries', 0), tot.get('solver_s', 0), cos, wall))
        for t in tinfo:
            print('  %-28s paths %d obligations %d queries %d solver %.1f s wall %.1f s' % (
                t['task'], t['paths'], t['obligations'], t['queries'], t['solver_s'], t['wall_s']))
        for e in errs[:5]:
            print('INCONCLUSIVE', e[:1500])
        seen = {}
        for u in und:
            seen[u] = seen.get(u, 0) + 1
        for u, n in list(seen.items())[:10]:
            print('INCONCLUSIVE', '%dx' % n, u[:600])
        seen = {}
        for b in bad:
            print('MODEL-MISMATCH', b['task'], b['why'], b['ints'], b['file'])
        for v in unconf[:6]:
            print('UNCONFIRMED', v['task'], v['label'], v['info'], v['why'], v['replay'])
        done = set()
        for k, v in kn:
            if k not in done:
                done.add(k)
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        rc = 0
        done = set()
        for k, v in newv:
            if v['label'] in done:
                continue
            done.add(v['label'])
            rp = os.path.join(OUT, 'build', 'replay', '%s_%s_%d' % (self.pid, v['task'], len(done)))
            os.makedirs(rp, exist_ok=True)
            shutil.copy(v['replay'], os.path.join(rp, 'inputs'))
            with open(os.path.join(rp, 'violation.json'), 'w') as fh:
                json.dump(v, fh, indent=1, default=str)
            for kind in ('asan', 'race', 'plain'):
                e = os.path.join(self.dir, v['task'] + '.' + kind)
                if os.path.exists(e):
                    shutil.copy(e, os.path.join(rp, 'program.' + kind))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            print('  %s %s: %s | %s' % (v['task'], v['label'], v['info'], v['why']))
            print('  inputs %s %s' % (json.dumps(v['ints']), json.dumps(v['inputs'])))
            rc = 1
        sys.stdout.flush()
        if rc == 0 and paths == 0:
            return 2  # nothing could be explored: no answer
        return rc


ASSUME = [
    'floating-point values are exact reals unless a task says it uses the rounding model; rounding error is outside the claim',
    'the bounds listed per task (particle count, box, capacities, steps); larger instances are outside the claim',
    'clang 18 front end and -O2 optimiser preserve the meaning of the source; z3 is sound for unsat',
    'library models: operator new never fails, libm sqrt/floor/ceil exact, OpenMP loops run iterations in the order of a static schedule',
]


def load_known(pid):
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('finding:'):
                d = json.loads(l[8:])
                if d['property'] == pid:
                    out.append(d)
    except OSError:
        pass
    return out


def match_known(known, v):
    for k in known:
        if k['task'] == v['task'] and k['label'] == v['label'] and all([a, b] in [list(x) for x in v['ints']] for a, b in k.get('ints', [])):
            return k['what']
    return None


def main():
    import importlib
    sys.path.insert(0, VERIF)
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    only = sys.argv[3:] or None
    seed = int(os.environ.get('VERIF_SEED', '1'))
    from . import specs
    tasks = specs.SPECS[pid]
    if only:
        tasks = [t for t in tasks if any(o in t.name for o in only)]
    sys.exit(Check(pid, tasks, tier, seed).run())


if __name__ == '__main__':
    main()
