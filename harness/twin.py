"""
The repaired twin of the code under test.

/verif/repairs holds minimal patches of genuine defects which could not be committed in /repo (they lie in
aas_test_engines/test_cases, which may not be changed there).  A twin is a scratch copy of /repo's current
aas_test_engines with those patches applied.  The verdict on a case is always found on /repo itself; only when
that is "violated", the same case is given to the twin, in a process of its own: if the property holds there, the
violation is explained by the known findings, otherwise it is a new one.
"""

import json
import os
import re
import resource
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPAIRS = os.path.join(os.path.dirname(HERE), "repairs")

_HUNK = re.compile(r"^@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@")


def repairs():
    return sorted(f for f in os.listdir(REPAIRS) if f.endswith(".patch"))


def parse(text):
    """-> [(path, [(line, old, new)])]"""
    out = []
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith("+++ b/"):
            out.append((l[6:].strip(), []))
        m = _HUNK.match(l)
        if m and out:
            n_old = int(m.group(2) or 1)
            n_new = int(m.group(4) or 1)
            old, new = [], []
            i += 1
            while len(old) < n_old or len(new) < n_new:
                tag, rest = lines[i][:1], lines[i][1:]
                if tag in (" ", ""):
                    old.append(rest)
                    new.append(rest)
                elif tag == "-":
                    old.append(rest)
                elif tag == "+":
                    new.append(rest)
                i += 1
            out[-1][1].append((int(m.group(1)) - 1, old, new))
            continue
        i += 1
    return out


def apply(root, text):
    """Apply a patch below root; False (and nothing changed) if a hunk has no place"""
    result = {}
    for path, hunks in parse(text):
        full = os.path.join(root, path)
        if not os.path.exists(full):
            return False
        lines = open(full, encoding="utf-8").read().split("\n")
        shift = 0
        for pos, old, new in hunks:
            at = [k for k in range(len(lines) - len(old) + 1) if lines[k : k + len(old)] == old]
            if not at:
                return False
            k = min(at, key=lambda k: abs(k - pos - shift))
            lines[k : k + len(old)] = new
            shift = k - pos + len(new) - len(old)
        result[full] = "\n".join(lines)
    for full, content in result.items():
        with open(full, "w", encoding="utf-8") as f:
            f.write(content)
    return True


def build(repo, upto=None):
    """-> (directory, names of the repairs which found no place)"""
    root = tempfile.mkdtemp(prefix="verif-twin-")
    shutil.copytree(
        os.path.join(repo, "aas_test_engines"), os.path.join(root, "aas_test_engines"),
        ignore=shutil.ignore_patterns("__pycache__"),
    )
    missing = []
    for name in repairs()[:upto]:
        if not apply(root, open(os.path.join(REPAIRS, name), encoding="utf-8").read()):
            missing.append(name)
    return root, missing


class Server:
    """Listens on a socket in a scratch directory; every connection is served by a process of its own, forked from
    one which has imported everything, but has not run any case"""

    @classmethod
    def spawn(cls, root, prop):
        """a server of the code below root"""
        self = cls()
        self.owner = os.getpid()
        self.dir = tempfile.mkdtemp(prefix="verif-sock-")
        self.path = os.path.join(self.dir, "s")
        env = dict(os.environ, VERIF_REPO=root)
        self.proc = subprocess.Popen(
            [sys.executable, os.path.join(HERE, "run.py"), prop, "--twin", self.path],
            stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env,
        )
        self.pid = self.proc.pid
        return self

    @classmethod
    def fork(cls, check):
        """a server of the code imported here"""
        self = cls()
        self.owner = os.getpid()
        self.dir = tempfile.mkdtemp(prefix="verif-sock-")
        self.path = os.path.join(self.dir, "s")
        self.proc = None
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                null = os.open(os.devnull, os.O_RDWR)
                os.dup2(null, 1)
                serve(check, self.path)
            finally:
                os._exit(0)
        return self

    def client(self):
        return Client(self.path)

    def close(self):
        if os.getpid() != self.owner:
            return
        try:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        shutil.rmtree(self.dir, ignore_errors=True)


class Client:
    def __init__(self, path):
        self.path = path
        self.sock = self.file = None

    def connect(self):
        for k in range(1200):
            self.sock = socket.socket(socket.AF_UNIX)
            try:
                self.sock.connect(self.path)
                break
            except OSError:
                self.sock.close()
                time.sleep(0.05)
        else:
            raise RuntimeError("no twin process")
        self.file = self.sock.makefile("rw")

    def ask(self, group, index, seed=None, choices=None, cpu=None):
        """-> (kind, message)"""
        if self.file is None:
            self.connect()
        try:
            self.file.write(json.dumps([group, index, seed, choices, cpu]) + "\n")
            self.file.flush()
            line = self.file.readline()
        except OSError:
            line = ""
        if not line:
            self.close()
            return "bad", "the process died"
        return tuple(json.loads(line))

    def close(self):
        if self.file is not None:
            for x in (self.file, self.sock):
                try:
                    x.close()
                except OSError:
                    pass
        self.file = self.sock = None


def serve(check, path):
    parent = os.getppid()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    s = socket.socket(socket.AF_UNIX)
    s.bind(path)
    s.listen(64)
    s.settimeout(1)
    while os.getppid() == parent:
        try:
            conn, _ = s.accept()
        except socket.timeout:
            continue
        if os.fork() == 0:
            s.close()
            conn.settimeout(None)
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            _serve_one(check, conn)
            os._exit(0)
        conn.close()
    os._exit(0)


def _serve_one(check, conn):
    import pbt

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    f = conn.makefile("rw")
    for line in f:
        gname, index, seed, choices, cpu = json.loads(line)
        group = next(g for g in check.groups if g.name == gname)
        kind, res = pbt.run_case(group.fn, pbt.Src(seed=seed, choices=choices), index, cpu=cpu)
        msg = res.msg if kind == "bad" else res if kind == "error" else None
        f.write(json.dumps([kind, msg]) + "\n")
        f.flush()
