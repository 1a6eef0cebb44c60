"""Replays requests against the real code through /verif/driver (built from /repo's current tree)."""
import os
import select
import subprocess
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(VERIF, "build", "target")
BIN = os.path.join(TARGET, "debug", "driver")


class BuildFailed(Exception):
    pass


def build():
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    # `states` reaches into the parser's states; without it, those requests are not served
    for more in ([], ["--no-default-features"]):
        r = subprocess.run(["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(VERIF, "driver", "Cargo.toml")] + more,
                           env=env, capture_output=True, text=True, timeout=600)
        if r.returncode == 0:
            return BIN
    raise BuildFailed(r.stderr[-3000:])


def _limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Driver:
    """ask(list of requests) -> list of answers; an answer is 'ok ...', 'panic ...', 'crash rc' or 'hang'."""

    def __init__(self, timeout=20.0):
        self.timeout = timeout
        self.p = None
        self.buf = b""

    def start(self):
        self.p = subprocess.Popen([BIN], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=_limits)
        self.buf = b""

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            for f in (self.p.stdin, self.p.stdout):
                try:
                    f.close()
                except OSError:
                    pass
            self.p = None

    def _line(self, deadline):
        while b"\n" not in self.buf:
            left = deadline - time.time()
            if left <= 0:
                return None
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if not r:
                return None
            d = os.read(self.p.stdout.fileno(), 1 << 16)
            if not d:
                return b""
            self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        return l + b"\n"

    def ask(self, reqs):
        out = []
        i = 0
        while i < len(reqs):
            if self.p is None:
                self.start()
            chunk = reqs[i:]
            p = self.p

            def feed(chunk=chunk, p=p):
                try:
                    for k in range(0, len(chunk), 64):
                        p.stdin.write(("\n".join(chunk[k:k + 64]) + "\n").encode())
                        p.stdin.flush()
                except (OSError, ValueError):
                    pass
            t = threading.Thread(target=feed, daemon=True)
            t.start()
            died = False
            for _ in chunk:
                l = self._line(time.time() + self.timeout)
                if l is None:
                    out.append("hang")
                    died = True
                elif l == b"":
                    self.p.wait()
                    out.append(f"crash {self.p.returncode}")
                    died = True
                else:
                    out.append(l[:-1].decode("utf-8", "replace"))
                i += 1
                if died:
                    self.stop()
                    break
            t.join(5)
        return out
