"""Helpers of a demonstration: a scripted local server, the command, and a reader of record files."""
import os, socket, subprocess, sys, tempfile, threading, time, shutil
BIN = os.path.abspath("target/debug/basjoofan")
DIR = tempfile.mkdtemp(prefix="demo-")
HERE = os.path.dirname(os.path.abspath(__file__))

def fail(*why):
    print("FAIL:", *why)
    shutil.rmtree(DIR, ignore_errors=True)
    sys.stdout.flush()
    os._exit(1)

def check(cond, *why):
    if not cond: fail(*why)

def done():
    shutil.rmtree(DIR, ignore_errors=True)
    print("ok")
    sys.stdout.flush()
    os._exit(0)

OK = b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\nConnection: close\r\n\r\nok"

def read_request(c):
    """One request: head, then Content-Length bytes."""
    data = b""
    while b"\r\n\r\n" not in data:
        more = c.recv(65536)
        if not more: return data
        data += more
    head, body = data.split(b"\r\n\r\n", 1)
    size = 0
    for line in head.split(b"\r\n")[1:]:
        k, _, v = line.partition(b":")
        if k.strip().lower() == b"content-length": size = int(v)
    while len(body) < size:
        more = c.recv(65536)
        if not more: break
        body += more
    return head + b"\r\n\r\n" + body

class Server:
    """Answers connection i with reply(i, request bytes); reply may return bytes, or send by itself on c and return None."""
    def __init__(self, reply=lambda i, r, c: OK, wrap=None, host="127.0.0.1", port=0, slow=None):
        self.requests = []; self.raw = []
        self.s = socket.socket(socket.AF_INET6 if ":" in host else socket.AF_INET)
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        if slow: self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, slow)
        self.s.bind((host, port)); self.s.listen(64)
        self.port = self.s.getsockname()[1]
        self.url = "http://127.0.0.1:%d" % self.port
        self.lock = threading.Lock(); self.n = 0
        self.reply = reply; self.wrap = wrap
        threading.Thread(target=self.loop, daemon=True).start()
    def loop(self):
        while True:
            try: c, _ = self.s.accept()
            except OSError: return
            with self.lock: i = self.n; self.n += 1
            threading.Thread(target=self.one, args=(i, c), daemon=True).start()
    def one(self, i, c):
        try:
            c.settimeout(60)
            if self.wrap: c = self.wrap(c)
            r = read_request(c)
            with self.lock: self.requests.append(r)
            out = self.reply(i, r, c)
            if out is not None: c.sendall(out)
        except OSError as e:
            pass
        try: c.close()
        except OSError: pass

def run(*args, env=None, input=None, timeout=60, cwd=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run([BIN, *args], env=e, input=input, capture_output=True, timeout=timeout, cwd=cwd or DIR)
    return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")

def ev(text, **k): return run("eval", text, **k)[1]

def suite(text, *args, name="s.fan", **k):
    with open(os.path.join(DIR, name), "w", newline="") as f: f.write(text)
    return run("test", *args, "-p", os.path.join(DIR, name), **k)

def body(r): return r.split(b"\r\n\r\n", 1)[1]

FIELDS = ["name:s","thread:l","number:l","order:l","time_start:l","time_end:l","time_total:l","time_resolve:l","time_connect:l","time_write:l","time_delay:l","time_read:l","request_name:s","request_method:s","request_url:s","request_version:s","request_headers:h","request_body:s","response_version:s","response_status:l","response_reason:s","response_headers:h","response_body:s","asserts:a","error:s"]

def decode(path):
    d = open(path, "rb").read(); p = 0
    def long():
        nonlocal p
        z = 0; shift = 0
        while True:
            b = d[p]; p += 1
            z |= (b & 0x7f) << shift; shift += 7
            if not b & 0x80: return (z >> 1) ^ -(z & 1)
    def string():
        nonlocal p
        n = long(); s = d[p:p+n]; p += n
        assert len(s) == n, "short"
        return s.decode()
    def array(f):
        out = []
        while True:
            n = long()
            if n == 0: return out
            if n < 0: n = -n; long()
            for _ in range(n): out.append(f())
    def boolean():
        nonlocal p
        b = d[p]; p += 1
        return bool(b)
    assert d[:4] == b"Obj\x01"; p = 4
    array(lambda: (string(), string()))
    mark = d[p:p+16]; p += 16
    rows = []
    while p < len(d):
        n = long(); size = long(); end = p + size
        for _ in range(n):
            row = {}
            for f in FIELDS:
                k, t = f.split(":")
                row[k] = {"s": string, "l": long, "h": lambda: array(lambda: array(string)), "a": lambda: array(lambda: (string(), string(), string(), string(), boolean()))}[t]()
            rows.append(row)
        assert p == end and d[p:p+16] == mark, "block"
        p += 16
    return rows
