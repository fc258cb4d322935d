"""Builds a small program against the puck crate below the current directory and runs it in Lunatic."""
import os, shutil, socket, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.81.0", RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
ENV.pop("RUSTFLAGS", None)
ENV["PATH"] = "/opt/vp/lunatic/bin:/root/.cargo/bin:" + ENV.get("PATH", "/usr/bin:/bin")

TOML = """[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[[bin]]
name = "demo"
path = "main.rs"
[dependencies]
puck = {{ path = "{repo}/puck" }}
lunatic = "=0.9.1"
serde = {{ version = "1", features = ["derive"] }}
malvolio = "0.3.1"
url = "2"
[profile.dev]
debug = 0
[workspace]
"""


class Demo:
    def __init__(self, source=None):
        self.source = source or os.path.join(HERE, "main.rs")
        self.tmp = tempfile.TemporaryDirectory()
        self.dir = self.tmp.name
        self.proc = None
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        self.port = s.getsockname()[1]
        s.close()

    def __enter__(self):
        with open(self.source) as f:
            text = f.read().replace("@PORT@", str(self.port)).replace("localhost:8080", f"127.0.0.1:{self.port}")
        with open(os.path.join(self.dir, "main.rs"), "w") as f:
            f.write(text)
        with open(os.path.join(self.dir, "Cargo.toml"), "w") as f:
            f.write(TOML.format(repo=REPO))
        shutil.copy(os.path.join(HERE, "Cargo.lock"), os.path.join(self.dir, "Cargo.lock"))
        r = subprocess.run(["cargo", "build", "--offline", "--target", "wasm32-wasi", "--target-dir", os.path.join(self.dir, "target")],
                           cwd=self.dir, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-3000:])
            sys.exit("the demonstration does not build")
        self.wasm = os.path.join(self.dir, "target", "wasm32-wasi", "debug", "demo.wasm")
        return self

    def __exit__(self, *a):
        if self.proc:
            self.proc.kill()
            self.proc.wait()
        self.tmp.cleanup()

    def run(self, timeout=60):
        """Run to its end; the status and the output."""
        r = subprocess.run(["lunatic", self.wasm], cwd=self.dir, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout

    def serve(self):
        self.proc = subprocess.Popen(["lunatic", self.wasm], cwd=self.dir, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for _ in range(100):
            try:
                self.connect().close()
                return
            except OSError:
                time.sleep(0.1)
        sys.exit("the server does not start")

    def connect(self):
        s = socket.create_connection(("127.0.0.1", self.port), timeout=5)
        return s

    def ask(self, data, timeout=5):
        """Send the bytes, and read until the server ends the connection (or for the timeout.)"""
        s = self.connect()
        s.sendall(data)
        return read_all(s, timeout)


def read_all(s, timeout=5, until=None):
    out = b""
    end = time.time() + timeout
    while time.time() < end and not (until and until(out)):
        s.settimeout(max(0.05, end - time.time()))
        try:
            b = s.recv(65536)
        except (socket.timeout, ConnectionError):
            break
        if not b:
            break
        out += b
    return out


def upgrade(d, path="/"):
    s = d.connect()
    s.sendall((f"GET {path} HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n"
               "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n").encode())
    head = read_all(s, 5, lambda b: b.endswith(b"\r\n\r\n"))
    return s, head


def frame(op, payload, fin=True, mask=b"\x11\x22\x33\x44"):
    n = len(payload)
    b = bytes([(0x80 if fin else 0) | op])
    if n < 126:
        b += bytes([0x80 | n])
    elif n < 65536:
        b += bytes([0x80 | 126]) + n.to_bytes(2, "big")
    else:
        b += bytes([0x80 | 127]) + n.to_bytes(8, "big")
    return b + mask + bytes(c ^ mask[i % 4] for i, c in enumerate(payload))


def check(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)
