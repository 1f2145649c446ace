"""Pool of native replay workers."""
import json
import os
import queue
import select
import subprocess
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


class Worker:
    def __init__(self, site):
        self.site = site
        self.p = None

    def start(self):
        env = dict(os.environ, VF_SITE=self.site, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=VERIF, PYTHONHASHSEED='0',
                   MPLBACKEND='Agg', PYTHONFAULTHANDLER='0')
        env['PATH'] = '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
        self.p = subprocess.Popen([PY, '-m', 'vf.hnat'], cwd=VERIF, env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        l = self._line(120)
        if l is None or l.strip() != 'ready':
            err = ''
            if self.p.poll() is not None:
                err = self.p.stderr.read()[-1500:]
            self.stop()
            raise RuntimeError('native worker did not start: %s' % err)

    def _line(self, timeout):
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            return None
        return self.p.stdout.readline()

    def ask(self, req, timeout=40):
        """(ok, msg); ok is True, False (failed), or None (not applicable)."""
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(req) + '\n')
            self.p.stdin.flush()
            l = self._line(timeout)
        except (BrokenPipeError, OSError):
            l = ''
        if l is None:
            self.stop()
            return False, 'did not finish within %d s' % timeout
        if not l:
            rc = self.p.wait()
            self.stop()
            return False, 'crashed with status %s' % rc
        r = json.loads(l)
        return r['ok'], r['msg']

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except OSError:
                pass
            for f in (self.p.stdin, self.p.stdout, self.p.stderr):
                try:
                    f.close()
                except OSError:
                    pass
            self.p = None


def run_all(site, reqs, workers=8):
    """Answers in the order of reqs."""
    if not reqs:
        return []
    out = [None] * len(reqs)
    q = queue.Queue()
    for i, r in enumerate(reqs):
        q.put(i)
    err = []

    def work():
        w = Worker(site)
        try:
            while True:
                try:
                    i = q.get_nowait()
                except queue.Empty:
                    return
                try:
                    out[i] = w.ask(reqs[i])
                except RuntimeError as e:
                    err.append(str(e))
                    return
        finally:
            w.stop()
    ts = [threading.Thread(target=work) for _ in range(min(workers, max(1, len(reqs) // 4 + 1)))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if err and any(o is None for o in out):
        raise RuntimeError(err[0])
    return out
