"""A server of its own on a free port and a minimal RESP client."""
import os, socket, subprocess, sys, time, atexit


class Err(str):
    pass


def start(env=None, binary="target/debug/server"):
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    port = s.getsockname()[1]
    s.close()
    e = dict(os.environ, RUDIS_SERVER_ADDR=f"127.0.0.1:{port}", RUDIS_FORWARD_ADDR="127.0.0.1:0", RUDIS_CONFIG="/nonexistent/config", **(env or {}))
    p = subprocess.Popen([binary], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    atexit.register(p.kill)
    for _ in range(200):
        try:
            socket.create_connection(("127.0.0.1", port), 1).close()
            break
        except OSError:
            time.sleep(0.05)
    p.port = port
    return p


class Client:
    def __init__(self, port, timeout=10):
        self.s = socket.create_connection(("127.0.0.1", port), timeout)
        self.f = self.s.makefile("rb")

    def send(self, *a):
        self.s.sendall(enc(*a))

    def cmd(self, *a):
        self.send(*a)
        return self.read()

    def read(self):
        l = self.f.readline()
        if not l.endswith(b"\r\n"):
            raise EOFError(l)
        t, l = l[:1], l[1:-2]
        if t == b"+":
            return l
        if t == b"-":
            return Err(l.decode("latin1"))
        if t == b":":
            return int(l)
        if t == b"$":
            n = int(l)
            if n < 0:
                return None
            b = self.f.read(n + 2)
            assert b[-2:] == b"\r\n", b
            return b[:-2]
        if t == b"*":
            n = int(l)
            return None if n < 0 else [self.read() for _ in range(n)]
        raise ValueError(t + l)


def enc(*a):
    a = [x if isinstance(x, bytes) else str(x).encode() for x in a]
    return b"*%d\r\n" % len(a) + b"".join(b"$%d\r\n%s\r\n" % (len(x), x) for x in a)


def expect(got, want, what):
    if got != want:
        print(f"FAIL: {what}: got {got!r}, want {want!r}")
        sys.exit(1)
