"""Path exploration by process forking: every feasible side of every branch becomes a process of its own."""
import os
import sys
import gc
import json
import time
import mmap
import struct
import traceback
from . import num, solve, mem
from .num import R, Fr, Hooks, ev
from .solve import St, PathEnd, Undecided
from .mem import Fault

MAX_VIOL = 60


class Shared:
    def __init__(self):
        self.m = mmap.mmap(-1, 64)

    def get(self, k):
        return struct.unpack_from('q', self.m, 8 * k)[0]

    def add(self, k, d):
        struct.pack_into('q', self.m, 8 * k, self.get(k) + d)


class X:
    shared = None
    rd = wr = -1
    out = -1
    mine = False          # this process holds a token to give back
    depth = 0


def reset_child():
    for k in St.stats:
        St.stats[k] = 0
    St.undecided = []
    St.violations = []
    St.reach = set()


def fork(n):
    if St.deadline and time.time() > St.deadline:
        raise Undecided('deadline')
    if X.shared.get(1) > MAX_VIOL:
        raise Undecided('stopped after violations')
    for i in range(1, n):
        tok = False
        try:
            tok = len(os.read(X.rd, 1)) == 1
        except BlockingIOError:
            pass
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            X.mine = tok
            X.depth += 1
            reset_child()
            return i
        if not tok:
            os.waitpid(pid, 0)
    return 0


def num_out(v, idx):
    if type(v) is R:
        return float(ev(v)[0][idx])
    return float(v)


def finish(end, detail=''):
    rec = dict(end=end, detail=detail, stats=St.stats, undecided=St.undecided, violations=St.violations,
               reach=sorted(St.reach), ints=St.ints, depth=X.depth)
    if end in ('end', 'return'):
        try:
            solve.enrich(2)
            if St.alive is not None and len(St.alive):
                i = int(St.alive[0])
                rec['witness'] = solve.sample_model(i)
                rec['outs'] = [(n, num_out(v, i)) for n, v in St.outs]
            elif not St.inputs:
                rec['witness'] = {}
                rec['outs'] = [(n, num_out(v, 0)) for n, v in St.outs]
        except Exception as e:
            rec['undecided'] = St.undecided + ['witness: %r' % e]
    elif St.undecided or end in ('undecided', 'error'):
        try:
            solve.enrich(2)
            rec['samples'] = [solve.sample_model(int(i)) for i in St.alive[:4]]
        except Exception:
            pass
    X.shared.add(0, 1)
    X.shared.add(1, len(St.violations))
    os.write(X.out, (json.dumps(rec) + '\n').encode())


def guarded(f):
    """runs one path; exceptions of the machine become path ends"""
    from . import rt
    from .codegen import Unsupported
    try:
        try:
            f()
            finish('return')
            return
        except rt.CxxExc as e:
            n = rt.name_of.get(e.ti, '?')
            what = ''
            try:
                what = mem.cstr(rt.exc_what(e.ptr))
            except Exception:
                pass
            solve.fault('uncaught exception', '%s: %s' % (rt.demangle(n), what))
        except Fault as e:
            solve.fault(e.args[0] if e.args else 'fault', ' '.join(str(a) for a in e.args[1:]))
        except rt.VpExit as e:
            raise PathEnd('end')
        except TypeError as e:
            if 'Uninit' in str(e):
                solve.fault('uninitialised value', traceback.format_exc().strip().split('\n')[-2].strip()[:200])
            raise
    except PathEnd as e:
        finish(str(e))
    except (Undecided, Unsupported) as e:
        St.undecided.append('%s: %s' % (type(e).__name__, e))
        finish('undecided', str(e))
    except RecursionError:
        if os.environ.get('VP_TRACE'):
            traceback.print_exc(limit=-40)
        St.undecided.append('recursion limit')
        finish('undecided', 'recursion')
    except BaseException as e:
        St.undecided.append('internal error: %r' % e)
        finish('error', traceback.format_exc()[-1500:])


def run(ir, entry, cfg, outpath, seconds, tokens, jarfds=None):
    """explores all paths of `entry`; result lines go to outpath"""
    from . import rt
    rt.cfg.update(cfg)
    St.seed = cfg.get('seed', 1)
    St.timeout = cfg.get('timeout', 20000)
    St.br_timeout = cfg.get('br_timeout', 2000)
    X.shared = Shared()
    St.cache = outpath + '.cache'
    os.makedirs(St.cache, exist_ok=True)
    if jarfds is None:
        X.rd, X.wr = os.pipe()
        os.set_blocking(X.rd, False)
        os.write(X.wr, b'x' * (tokens - 1))
    else:
        X.rd, X.wr = jarfds
    X.out = os.open(outpath, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o644)
    St.fork = fork
    St.deadline = time.time() + seconds
    ar, aw = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(ar)
        code = 0
        try:
            solve.init_samples()
            t0 = time.time()
            rt.load_program(ir)
            rt.run_ctors()
            gc.collect()
            gc.freeze()
            guarded(lambda: rt.call(entry))
            if X.depth == 0:
                fns = sorted(rt.called)
                os.write(X.out, (json.dumps(dict(end='meta')) + '\n').encode())
            fl = outpath + '.fns'
            with open(fl, 'a') as fh:
                fh.write('\n'.join(rt.called) + '\n')
        except BaseException:
            os.write(X.out, (json.dumps(dict(end='error', detail=traceback.format_exc()[-1500:], stats={}, undecided=['internal error at start'],
                                             violations=[], reach=[], ints=[], depth=0)) + '\n').encode())
            code = 3
        finally:
            if X.mine:
                try:
                    os.write(X.wr, b'x')
                except OSError:
                    pass
            sys.stdout.flush()
            os._exit(code)
    os.close(aw)
    # end of file on the pipe: no path process is left
    while True:
        if not os.read(ar, 4096):
            break
    os.waitpid(pid, 0)
    os.close(ar)
