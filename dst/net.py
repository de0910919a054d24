"""A simulated network below http.client: connections, servers and their faults.  No real socket is ever opened."""
import contextlib
import errno
import gzip
import http.client
import io
import os
import socket
import ssl
import time

CONNECT = {
    "refused": lambda: ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused"),
    "unreachable": lambda: OSError(errno.ENETUNREACH, "Network is unreachable"),
    "dns": lambda: socket.gaierror(socket.EAI_NONAME, "Name or service not known"),
    "connect_timeout": lambda: TimeoutError(errno.ETIMEDOUT, "Connection timed out"),
    "tls": lambda: ssl.SSLError(1, "handshake failure"),
}
BODY = ["reset", "timeout", "truncated"]
STATUS = {301: "Moved Permanently", 302: "Found", 307: "Temporary Redirect", 403: "Forbidden", 404: "Not Found", 429: "Too Many Requests",
          500: "Internal Server Error", 502: "Bad Gateway", 503: "Service Unavailable"}
PAGE = b"<!DOCTYPE html>\n<html><head><title>Sign in</title></head>\n<body> <p> please sign in to use this network </p> </body></html>\n"


class _Raw(io.RawIOBase):
    def __init__(self, net, sock):
        self.net, self.sock, self.play, self.buf = net, sock, None, b""

    def readable(self):
        return True

    def readinto(self, b):
        net = self.net
        net.yield_()
        if self.play is None:
            self.play = net.respond(self.sock)
        while not self.buf:
            try:
                what, arg = next(self.play)
            except StopIteration:
                return 0
            if what == "data":
                self.buf = arg
            elif what == "delay":
                t = self.sock.timeout
                net.sim.advance(arg if t is None else min(arg, t))
                net.sim.fault("stall")
                if t is not None and arg > t:
                    raise TimeoutError("timed out")
            else:
                raise arg
        n = min(len(b), len(self.buf))
        b[:n] = self.buf[:n]
        self.buf = self.buf[n:]
        return n


class _Sock:
    def __init__(self, net, host, timeout, script):
        self.net, self.host, self.timeout, self.script = net, host, timeout, script
        self.request = b""

    def sendall(self, data, *a):
        self.request += bytes(data)
        self.net.sim.step()
        if self.script.get("at") == "send":
            self.script["at"] = None
            self.net.sim.fault("broken_pipe")
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")

    def makefile(self, mode="rb", bufsize=-1, **k):
        return io.BufferedReader(_Raw(self.net, self), 8192)

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setsockopt(self, *a):
        pass

    def shutdown(self, how):
        pass

    def close(self):
        pass


class Net:
    """``scripts``: one per connection, in order; connections beyond it are healthy.

    script: {"connect": kind} | {"status": code} | {"page": 1} | {"empty": 1} | {"loop": 1} plus transfer details
    {"redirect": n, "enc": "length"/"chunked"/"gzip", "short": s, "delay": p, "break": kind, "pos": 0..1, "line": bool}
    """

    def __init__(self, sim, files, yield_=None):
        self.sim, self.files = sim, files
        self.scripts = []
        self.connections = 0
        self.yield_ = yield_ or (lambda: None)
        self.unknown = []

    def connect(self, conn, *a, **k):
        self.yield_()
        self.connections += 1
        s = dict(self.scripts.pop(0)) if self.scripts else {}
        self.sim.log("connect", conn.host, sorted(s.items(), key=str))
        if s.get("connect"):
            self.sim.fault("connect_" + s["connect"])
            raise CONNECT[s["connect"]]()
        t = conn.timeout
        conn.sock = _Sock(self, conn.host, t if isinstance(t, (int, float)) else None, s)

    def respond(self, sock):
        s, sim = sock.script, self.sim
        line = sock.request.split(b"\r\n", 1)[0].decode("latin-1").split(" ")
        path = line[1] if len(line) > 1 else "/"
        if s.get("at") == "response":
            sim.fault("closed_without_response")
            return
        body, head = None, []
        code = 200
        if s.get("loop"):
            sim.fault("redirect_loop")
            self.scripts.insert(0, dict(s))
            code, body, head = 302, b"", [("Location", f"https://{sock.host}{path}")]
        elif s.get("redirect", 0) > 0:
            sim.fault("redirect")
            nxt = {**s, "redirect": s["redirect"] - 1}
            self.scripts.insert(0, nxt)
            code, body = s.get("rcode", 302), b"moved"
            head = [("Location", f"https://mirror{s['redirect']}.example.org{path}")]
            s = {}
        elif s.get("status"):
            sim.fault(f"status_{s['status']}")
            code, body = s["status"], PAGE
        elif s.get("page"):
            sim.fault("foreign_content")
            body = PAGE
        elif s.get("empty"):
            sim.fault("empty_body")
            body = b""
        else:
            body = next((v for k, v in self.files.items() if path.endswith(k)), None)
            if body is None:
                self.unknown.append(path)
                code, body = 404, PAGE
        enc = s.get("enc", "length")
        if enc == "gzip":
            sim.fault("unrequested_compression")
            body = gzip.compress(body, mtime=0)
            head.append(("Content-Encoding", "gzip"))
        if enc == "chunked":
            head.append(("Transfer-Encoding", "chunked"))
            wire, n = b"", 997
            for i in range(0, len(body), n):
                c = body[i:i + n]
                wire += b"%x\r\n%s\r\n" % (len(c), c)
            wire += b"0\r\n\r\n"
        else:
            head.append(("Content-Length", str(len(body))))
            wire = body
        reason = "OK" if code == 200 else STATUS[code]
        top = f"HTTP/1.1 {code} {reason}\r\n" + "".join(f"{k}: {v}\r\n" for k, v in head) + "Content-Type: application/octet-stream\r\n\r\n"
        top = top.encode()
        if s.get("early"):
            top = b"HTTP/1.1 100 Continue\r\n\r\n" + top
        cut = None
        if s.get("break"):
            cut = int(s["pos"] * len(wire))
            if s.get("line") and enc == "length":
                cut = wire.rfind(b"\n", 0, cut) + 1
            cut = min(cut, len(wire) - (5 if enc == "chunked" else 1))
        if s.get("head_cut"):
            sim.fault("truncated_header")
            yield "data", top[:int(len(top) * s["pos"])]
            return
        yield "data", top
        size = s.get("short") or 1 << 30
        if s.get("short"):
            sim.fault("short_reads")
        end = len(wire) if cut is None else cut
        for i in range(0, end, size):
            if s.get("delay") and sim.chance(1, s["delay"]):
                yield "delay", 0.5 + sim.choose(600)
            sim.step()
            yield "data", wire[i:min(i + size, end)]
        if cut is None:
            return
        sim.fault("transfer_" + s["break"])
        if s["break"] == "reset":
            yield "error", ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
        if s["break"] == "timeout":
            sim.advance(900.0)
            yield "error", TimeoutError(errno.ETIMEDOUT, "Connection timed out")


def gen_script(rng):
    """One connection: mostly faulty."""
    x = rng.random()
    s = {"short": rng.choice([None, None, 1, 7, 100, 1000, 4096]), "delay": rng.choice([None, None, 3, 20]),
         "enc": rng.choice(["length", "length", "chunked", "gzip"]), "redirect": rng.choice([0, 0, 1, 2, 3]), "rcode": rng.choice([301, 302, 307]),
         "pos": round(rng.choice([0.0, 0.02, rng.random(), rng.random(), 0.98, 1.0]), 3), "line": rng.random() < 0.6,
         "early": rng.choice([None, None, None, 100])}
    if s["short"] == 1:
        s["delay"] = None
    if x < 0.15:
        return {"connect": rng.choice(sorted(CONNECT))}
    if x < 0.22:
        return {"at": rng.choice(["send", "response"])}
    if x < 0.32:
        return {**s, "status": rng.choice([403, 404, 429, 500, 502, 503])}
    if x < 0.36:
        return {**s, rng.choice(["page", "empty"]): 1}
    if x < 0.39:
        return {"loop": 1}
    if x < 0.43:
        return {**s, "head_cut": 1}
    if x < 0.88:
        return {**s, "break": rng.choice(BODY)}
    return s


@contextlib.contextmanager
def installed(net):
    """Everything in this process that talks HTTP talks to the simulated network."""
    old = http.client.HTTPConnection.connect, http.client.HTTPSConnection.connect, socket.create_connection, time.sleep
    env = {k: os.environ.pop(k) for k in list(os.environ) if k.lower().endswith("_proxy")}

    def connect(self, *a, **k):
        net.connect(self)

    def never(*a, **k):
        raise OSError(errno.ENETUNREACH, "Network is unreachable")

    def sleep(t):
        net.sim.advance(t)
        net.yield_()
    http.client.HTTPConnection.connect = connect
    http.client.HTTPSConnection.connect = connect
    socket.create_connection = never
    time.sleep = sleep
    try:
        yield net
    finally:
        http.client.HTTPConnection.connect, http.client.HTTPSConnection.connect, socket.create_connection, time.sleep = old
        os.environ.update(env)
