import json
import os
import selectors
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get('VERIF_PY') or ('/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable)


class Worker:
    def __init__(self, hashseed, base):
        env = dict(os.environ)
        env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1', TZ='UTC', PYTHONPATH=HERE,
                   OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', LC_ALL='C.UTF-8', PYTHONUTF8='1')
        self.hashseed = hashseed
        self.p = subprocess.Popen([PY, '-m', 'sim.worker', base], cwd=HERE, env=env, text=True,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.ready = False

    def wait_ready(self):
        if not self.ready:
            line = self.p.stdout.readline()
            if not line or not json.loads(line).get('ready'):
                raise RuntimeError('worker did not start (does pyfileconf import?)')
            self.ready = True

    def send(self, msg):
        self.wait_ready()
        self.p.stdin.write(json.dumps(msg) + '\n')
        self.p.stdin.flush()

    def recv(self):
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('worker died')
        return json.loads(line)

    def run(self, prop, case, timeout=60):
        self.send({'cmd': 'case', 'prop': prop, 'case': case, 'timeout': timeout})
        return self.recv()['result']

    def close(self):
        try:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
        except Exception:
            pass


class Pool:
    def __init__(self, hashseeds):
        root = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        self.base = tempfile.mkdtemp(prefix='vsim-', dir=root)
        self.n = 0
        self.workers = [self.start(h) for h in hashseeds]

    def start(self, hashseed):
        self.n += 1
        return Worker(hashseed, os.path.join(self.base, f'w{self.n}'))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for w in self.workers:
            w.close()
        shutil.rmtree(self.base, ignore_errors=True)

    def stream(self, msgs):
        """send one message to each worker and yield (worker, answer) until all are done"""
        sel = selectors.DefaultSelector()
        open_ = 0
        for w, m in zip(self.workers, msgs):
            w.send(m)
        import threading
        import queue
        q = queue.Queue()

        def reader(w):
            try:
                while True:
                    r = w.recv()
                    q.put((w, r))
                    if r.get('done'):
                        break
            except Exception as e:
                q.put((w, {'done': True, 'error': repr(e)}))
        for w in self.workers:
            threading.Thread(target=reader, args=(w,), daemon=True).start()
            open_ += 1
        while open_:
            w, r = q.get()
            if r.get('done'):
                open_ -= 1
            yield w, r
