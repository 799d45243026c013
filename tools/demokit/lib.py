"""Client side of the demonstrations."""
import os, re, resource, socket, ssl, struct, subprocess, sys, threading, time

BIN = sys.argv[1]
procs = []

def port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p

class Daemon:
    def __init__(self, *args, naddr=1, std=False, dns=None, out=None, limit=None, host="127.0.0.1"):
        self.host = host
        self.ports = [port() for _ in range(naddr)]
        a = [BIN, "-helo", "test.example"] + ([] if std else ["-nostdrules"]) + list(args) + ["%s:%d" % (host, p) for p in self.ports]
        self.err = open("stderr.%d" % len(procs), "w+")
        self.p = subprocess.Popen(a, stdout=out or subprocess.DEVNULL, stderr=self.err,
                                  env=dict(os.environ, DEMO_DNS="127.0.0.1:%d" % dns.port if dns else "127.0.0.1:9"),
                                  preexec_fn=(lambda: resource.setrlimit(*limit)) if limit else None)
        procs.append(self.p)
        for p in self.ports:
            for i in range(200):
                if self.p.poll() is not None:
                    raise SystemExit("sinksmtp exited: " + self.stderr())
                try:
                    socket.create_connection((host, p)).close(); break
                except OSError:
                    time.sleep(0.05)
    def stderr(self):
        self.err.flush()
        return open(self.err.name).read()
    def session(self, i=0, src=None):
        return Session(self.ports[i], src, self.host)
    def stop(self):
        self.p.kill(); self.p.wait()

class Session:
    def __init__(self, port, src=None, host="127.0.0.1"):
        self.s = socket.create_connection((host, port), 20, (src, 0) if src else None)
        self.f = self.s.makefile("rb")
        self.greeting = self.read()
    def read(self):
        l = []
        while True:
            x = self.f.readline().decode("latin1").rstrip("\r\n")
            if x == "":
                return (0, l)
            l.append(x[4:])
            if x[3:4] != "-":
                return (int(x[:3]), l)
    def cmd(self, s):
        self.s.sendall((s + "\r\n").encode("latin1"))
        return self.read()
    def code(self, s):
        return self.cmd(s)[0]
    def msg(self, frm, rcpts, body, helo=None):
        if helo is not None:
            self.cmd("EHLO " + helo)
        self.cmd("MAIL FROM:<%s>" % frm)
        for r in rcpts:
            self.cmd("RCPT TO:<%s>" % r)
        r = self.cmd("DATA")
        if r[0] != 354:
            return r
        self.s.sendall(body.encode("latin1") + b".\r\n")
        return self.read()
    def starttls(self, ctx):
        if self.code("STARTTLS") != 220:
            return False
        self.s = ctx.wrap_socket(self.s, server_hostname="test.example")
        self.f = self.s.makefile("rb")
        return True
    def badtls(self):
        """Ask for TLS and then send something else."""
        if self.code("STARTTLS") != 220:
            return False
        self.s.sendall(b"this is not TLS at all, not a bit\r\n" * 4)
        try: self.f.read()
        except OSError: pass
        self.close()
        return True
    def quit(self):
        r = self.cmd("QUIT"); self.close(); return r
    def close(self):
        try: self.f.close()
        except Exception: pass
        self.s.close()
        time.sleep(0.05)

class DNS:
    """A tiny DNS server: {(name, type): [answers] | "servfail"}; others: no such name."""
    T = {"A": 1, "PTR": 12, "MX": 15, "TXT": 16, "AAAA": 28}
    def __init__(self, data):
        self.data = data
        self.s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        self.s.bind(("127.0.0.1", 0))
        self.port = self.s.getsockname()[1]
        threading.Thread(target=self.run, daemon=True).start()
    @staticmethod
    def name(n):
        return b"".join(bytes([len(l)]) + l.encode() for l in n.rstrip(".").split(".") if l) + b"\0"
    def run(self):
        while True:
            q, a = self.s.recvfrom(4096)
            i, labels = 12, []
            while q[i]:
                labels.append(q[i + 1:i + 1 + q[i]].decode()); i += 1 + q[i]
            typ = struct.unpack(">H", q[i + 1:i + 3])[0]
            n = ".".join(labels).lower() + "."
            t = {v: k for k, v in self.T.items()}.get(typ, "?")
            ans = self.data.get((n, t))
            known = any(k[0] == n for k in self.data)
            rc, out = (0, ans) if isinstance(ans, list) else (2, []) if ans == "servfail" else (0 if known else 3, [])
            r = b""
            for x in out:
                if t == "A": d = socket.inet_aton(x)
                elif t == "PTR": d = self.name(x)
                elif t == "MX": d = struct.pack(">H", x[0]) + self.name(x[1])
                elif t == "TXT": d = bytes([len(x)]) + x.encode()
                else: continue
                r += b"\xc0\x0c" + struct.pack(">HHIH", typ, 1, 1, len(d)) + d
            self.s.sendto(q[:2] + struct.pack(">HHHHH", 0x8580 | rc, 1, len(out), 0, 0) + q[12:i + 5] + r, a)

def tlsctx():
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    c.check_hostname = False
    c.verify_mode = ssl.CERT_NONE
    return c

HERE = sys.argv[2]
CERT = ["-c", HERE + "/cert.pem", "-k", HERE + "/key.pem"]

def write(f, s):
    open(f, "w").write(s)

def check(ok, what):
    if not ok:
        print("FAILED:", what)
        done(1)

def done(n=0):
    for p in procs:
        p.kill()
    if n == 0:
        print("ok")
    sys.stdout.flush()
    os._exit(n)
