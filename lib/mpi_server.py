"""Ranks that wait for cases: `mpirun -n k python mpi_server.py DIR PARENT MODULE` runs MODULE.work(case) for every DIR/req_N.json.

Every rank writes its own answer DIR/res_N_R.pkl: ('ok', result) or ('exception', (type, message, trace, in the code under test?)).
After an exception the whole job ends (the other ranks may be waiting in a collective call).
"""
import importlib
import json
import os
import pickle
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def alive(pid):
    try:
        with open(f'/proc/{pid}/stat') as f:
            return f.read().rsplit(')', 1)[1].split()[0] != 'Z'
    except OSError:
        return False


def serve(d, parent, module):
    sys.path.insert(0, HERE)
    from lib import boot, iso

    def watch():
        while alive(parent):
            time.sleep(1.)
        os._exit(0)
    threading.Thread(target=watch, daemon=True).start()
    boot.phyem()
    from phyem.src.config import COMM, RANK
    work = importlib.import_module(module).work
    open(os.path.join(d, f'ready_{RANK}'), 'w').close()
    n = 0
    while True:
        req = os.path.join(d, f'req_{n}.json')
        wait = 0.001
        while not os.path.exists(req):
            time.sleep(wait)
            wait = min(wait * 1.1, 0.02)
        with open(req) as f:
            case = json.load(f)
        try:
            out = ('ok', work(case))
        except BaseException as e:  # noqa
            out = ('exception', (type(e).__name__, str(e)[:400], traceback.format_exc()[-2500:], iso.frames(e)))
        path = os.path.join(d, f'res_{n}_{RANK}.pkl')
        with open(path + '.tmp', 'wb') as f:
            pickle.dump(out, f, protocol=4)
        os.rename(path + '.tmp', path)
        if out[0] != 'ok':
            time.sleep(.5)
            COMM.Abort(1)
        n += 1


class Job:
    """The client side: one group of ranks, kept for many cases."""
    jobs = {}

    def __init__(self, size, module):
        from lib import boot
        self.size, self.n = size, 0
        self.dir = tempfile.mkdtemp(prefix=f'mpi{size}_', dir=boot.scratch())
        env = {k: v for k, v in os.environ.items() if not k.startswith(('OMPI_', 'PMIX_', 'ORTE_', 'OPAL_', 'PRTE_', 'MPI_'))}
        env.update(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_btl='self,vader',
                   OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_mpi_yield_when_idle='1', OMPI_MCA_pml='ob1',
                   OMPI_MCA_hwloc_base_binding_policy='none', OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_orte_tmpdir_base=self.dir,
                   OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', MPLBACKEND='Agg', TMPDIR=self.dir, VP_SCRATCH=self.dir,
                   PYTHONHASHSEED='0')
        with open(os.path.join(self.dir, 'log'), 'wb') as log:
            self.p = subprocess.Popen(['mpirun', '--oversubscribe', '-n', str(size), sys.executable, '-B', os.path.abspath(__file__), self.dir,
                                       str(os.getpid()), module], stdin=subprocess.DEVNULL, stdout=log, stderr=log, env=env, start_new_session=True)
        t0 = time.time()
        while sum(os.path.exists(os.path.join(self.dir, f'ready_{r}')) for r in range(size)) < size:
            if self.p.poll() is not None or time.time() - t0 > 150:
                log = self.log()
                self.stop()
                raise_harness(f'cannot start {size} ranks: {log}')
            time.sleep(.05)

    def log(self):
        try:
            return open(os.path.join(self.dir, 'log'), errors='replace').read()[-1500:]
        except OSError:
            return ''

    def stop(self):
        import shutil
        import signal
        try:
            os.killpg(self.p.pid, signal.SIGTERM)
            self.p.wait(5)
        except (OSError, subprocess.TimeoutExpired):
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
                self.p.wait(5)
            except (OSError, subprocess.TimeoutExpired):
                pass
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, case, timeout):
        """The answers of the ranks, in order; (None, text) when the ranks do not come back."""
        n, self.n = self.n, self.n + 1
        path = os.path.join(self.dir, f'req_{n}.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(case, f)
        os.rename(path + '.tmp', path)
        t0, wait = time.time(), 0.001
        got = {}
        while len(got) < self.size:
            for r in range(self.size):
                p = os.path.join(self.dir, f'res_{n}_{r}.pkl')
                if r not in got and os.path.exists(p):
                    with open(p, 'rb') as f:
                        got[r] = pickle.load(f)
                    os.remove(p)
            if any(v[0] != 'ok' for v in got.values()):
                return got, 'exception'
            if self.p.poll() is not None:
                return got, 'ended: ' + self.log()
            if time.time() - t0 > timeout:
                return got, f'no answer in {timeout} s'
            time.sleep(wait)
            wait = min(wait * 1.2, .02)
        os.remove(path)
        return got, ''


def raise_harness(text):
    from lib.core import HarnessError
    raise HarnessError(text)


def run(size, module, case, timeout=150.):
    """[result of rank 0, ..., result of rank size-1]; an exception of a rank, or ranks that hang, are violations."""
    from lib.core import Violation, HarnessError
    key = (os.getpid(), size, module)
    job = Job.jobs.get(key)
    if job is None:
        job = Job.jobs[key] = Job(size, module)
    got, why = job.run(case, timeout)
    if why == '':
        return [got[r][1] for r in range(size)]
    Job.jobs.pop(key).stop()
    for r in sorted(got):
        if got[r][0] != 'ok':
            name, msg, trace, inrepo = got[r][1]
            if inrepo:
                raise Violation(f'with {size} ranks, rank {r}: {name}: {msg}\n{trace}')
            raise HarnessError(f'rank {r}: {name}: {msg}\n{trace}')
    raise Violation(f'with {size} ranks, ranks {sorted(set(range(size)) - set(got))} gave no answer ({why})')


def stop_all():
    for k in list(Job.jobs):
        if k[0] == os.getpid():
            Job.jobs.pop(k).stop()


if __name__ == '__main__':
    serve(sys.argv[1], int(sys.argv[2]), sys.argv[3])
