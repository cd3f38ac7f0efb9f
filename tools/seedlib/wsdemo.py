"""A real server in a scratch directory, and a small WebSocket client."""
import atexit, base64, hashlib, json, os, shutil, signal, socket, struct, subprocess, sys, tempfile, time

REPO = os.getcwd()

def free_port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p

class Server:
    def __init__(self, subs=("echo", "broadcast"), exts=(), size=None, timeouts=None, pool=None, env=None, plugs=(), ssl_files=None, asan=False, **top):
        self.dir = tempfile.mkdtemp(prefix="wsdemo."); atexit.register(self.kill)
        os.mkdir(self.dir + "/log")
        self.port = free_port(); self.sport = free_port()
        sz = {"payload": 16777215, "header": 8192, "uri": 8192, "buffer": 32768, "thread": 2097152, "ringbuffer": 128, "frame": 1048576, "fragmented": 1048576}
        sz.update(size or {})
        to = {"poll": -1, "read": -1, "write": -1, "client": -1, "pings": 0}; to.update(timeouts or {})
        pl = {"workers": 4, "retries": 5}; pl.update(pool or {})
        conf = {"hosts": top.pop("hosts", []), "paths": top.pop("paths", []), "queries": top.pop("queries", []), "origins": top.pop("origins", []),
                "setup": dict({"subprotocols": [{"file": "%s/subprotocols/%s/%s.so" % (REPO, s, s), "config": ""} for s in subs] + list(plugs),
                          "extensions": [{"file": e if e[0] == "/" else "%s/extensions/%s/%s.so" % (REPO, e, e), "config": c} for e, c in exts],
                          "log_level": 0, "timeouts": to, "port": {"http": self.port, "https": self.sport}, "size": sz, "pool": pl}, **top)}
        if ssl_files: conf["setup"]["ssl"] = {"key": REPO + "/resources/wsserver.key", "cert": REPO + "/resources/wsserver.crt", "ca_file": REPO + "/resources/rootCA.crt", "dhparam": REPO + "/resources/dhparam.pem", "compression": False, "peer_cert": False}
        json.dump(conf, open(self.dir + "/c.json", "w"))
        prog = build_asan(self.dir) if asan else REPO + "/_build/bin/release/WSServer"
        self.p = subprocess.Popen([prog, "-c", self.dir + "/c.json"], cwd=self.dir, env=dict(os.environ, **(env or {})),
                                  stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for _ in range(200):
            try:
                for q in [self.port] + ([self.sport] if ssl_files else []): socket.create_connection(("127.0.0.1", q), 1).close()
                return
            except OSError: time.sleep(0.05)
            if self.p.poll() is not None: sys.exit("server did not start")
        sys.exit("server does not listen")
    def alive(self): return self.p.poll() is None
    def stop(self, t=20):
        self.p.send_signal(signal.SIGINT)
        try: return self.p.wait(t)
        except subprocess.TimeoutExpired: return None
    def kill(self):
        if self.p.poll() is None: self.p.kill(); self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)

class Client:
    def __init__(self, s, proto="echo", ext="", path="/", headers="", shake=True, rcvbuf=0, tls=False):
        self.s = socket.socket()
        if rcvbuf: self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.s.settimeout(10); self.s.connect(("127.0.0.1", s.sport if tls else s.port)); self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        if tls:
            import ssl
            x = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT); x.check_hostname = False; x.verify_mode = ssl.CERT_NONE; self.s = x.wrap_socket(self.s)
        self.b = b""; self.port = s.port
        if shake:
            self.send(request(proto, ext, path, headers)); self.resp = self.head()
            if b" 101 " not in self.resp.split(b"\r\n")[0]: raise RuntimeError("refused: %r" % self.resp)
    def send(self, b): self.s.sendall(b)
    def more(self):
        d = self.s.recv(65536)
        if not d: raise EOFError("closed")
        self.b += d
    def head(self):
        while b"\r\n\r\n" not in self.b: self.more()
        h, self.b = self.b.split(b"\r\n\r\n", 1); return h
    def raw(self):
        """One frame: (fin, rsv, opcode, payload)."""
        while True:
            b = self.b
            if len(b) >= 2:
                n, o = b[1] & 127, 2
                if n == 126: n, o = (struct.unpack("!H", b[2:4])[0], 4) if len(b) >= 4 else (1 << 60, 4)
                elif n == 127: n, o = (struct.unpack("!Q", b[2:10])[0], 10) if len(b) >= 10 else (1 << 60, 10)
                if len(b) >= o + n:
                    self.b = b[o + n:]; return bool(b[0] & 128), b[0] >> 4 & 7, b[0] & 15, b[o:o + n]
            self.more()
    def msg(self):
        """One message or control frame: (opcode, payload)."""
        fin, _, op, p = self.raw()
        while not fin:
            fin, _, o, q = self.raw()
            if o: raise RuntimeError("opcode %d inside a message" % o)
            p += q
        return op, p
    def closed(self, t=5):
        self.s.settimeout(t)
        try:
            while True: self.more()
        except (EOFError, ConnectionError): return True
        except socket.timeout: return False

def key(): return base64.b64encode(os.urandom(16)).decode()
def request(proto="echo", ext="", path="/", headers="", k=None):
    return ("GET %s HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: %s\r\nSec-WebSocket-Version: 13\r\n%s%s%s\r\n"
            % (path, k or key(), "Sec-WebSocket-Protocol: %s\r\n" % proto if proto else "", "Sec-WebSocket-Extensions: %s\r\n" % ext if ext else "", headers)).encode()
def frame(op, payload=b"", fin=True, rsv=0, mask=b"\x12\x34\x56\x78"):
    h = bytes([(0x80 if fin else 0) | rsv << 4 | op]); n = len(payload); m = 0x80 if mask is not None else 0
    h += bytes([m | n]) if n < 126 else bytes([m | 126]) + struct.pack("!H", n) if n < 65536 else bytes([m | 127]) + struct.pack("!Q", n)
    if mask is None: return h + payload
    r = (mask * (n // 4 + 1))[:n]
    return h + mask + (int.from_bytes(payload, "big") ^ int.from_bytes(r, "big")).to_bytes(n, "big")
def build_asan(d):
    """Builds the server with AddressSanitizer and the allocator of the C library."""
    import glob
    subprocess.run(["gcc", "-O1", "-g", "-std=gnu11", "-w", "-march=x86-64-v3", "-pthread", "-fsanitize=address", "-rdynamic", "-D_DEFAULT_SOURCE", "-DNDEBUG", '-DWSS_SERVER_VERSION="v2.0.0"', "-DUSE_OPENSSL", "-DFIPS_mode_set(x)=(0)",
                    "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + REPO + "/extensions", "-I" + REPO + "/subprotocols"] + [f for f in glob.glob(REPO + "/src/*.c") if "rpmalloc" not in f]
                   + ["-o", d + "/asan", "-lm", "-ldl", "-lssl", "-lcrypto"], check=True)
    return d + "/asan"
def plugin(name, src):
    """Builds a plugin into a scratch directory and returns its path."""
    d = tempfile.mkdtemp(prefix="wsplug."); atexit.register(shutil.rmtree, d, True)
    open(d + "/p.c", "w").write(src)
    subprocess.run(["gcc", "-shared", "-fPIC", "-w", "-I" + REPO + "/extensions", "-I" + REPO + "/subprotocols", "-I" + REPO + "/include", d + "/p.c", "-o", d + "/" + name + ".so"], check=True)
    return d + "/" + name + ".so"
def fail(why): print("FAIL:", why); sys.exit(1)
