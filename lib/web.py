"""Loopback HTTP server with scripted (and misbehaving) responses, and generators of software archives."""

from __future__ import annotations

import bz2
import gzip
import io
import lzma
import os
import random
import socket
import stat
import struct
import tarfile
import threading
import time
import zipfile
from dataclasses import dataclass, field
from typing import Any, Callable, Optional

_LOCK = threading.Lock()


@dataclass
class Reply:
    status: int = 200
    body: bytes = b""
    mode: str = "length"  # length | chunked | close | dribble | short | reset | badchunk | garbage | drop | redirect
    headers: dict[str, str] = field(default_factory=dict)
    location: str = ""
    delay: float = 0.0


class Server:
    """Answers each request to a path with the next scripted reply (the last one is repeated)."""

    def __init__(self) -> None:
        self.sock = socket.socket()
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        self.base = f"http://127.0.0.1:{self.port}"
        self.script: dict[str, list[Reply]] = {}
        self.log: list[tuple[float, str, str]] = []
        self.on_request: Optional[Callable[[str], None]] = None
        threading.Thread(target=self._accept, daemon=True).start()

    def _accept(self) -> None:
        while True:
            try:
                conn, _ = self.sock.accept()
            except OSError:
                return
            threading.Thread(target=self._serve, args=(conn,), daemon=True).start()

    def reset(self) -> None:
        with _LOCK:
            self.script.clear()
            self.log.clear()
            self.on_request = None

    def _serve(self, conn: socket.socket) -> None:
        try:
            conn.settimeout(20)
            data = b""
            while b"\r\n\r\n" not in data:
                d = conn.recv(65536)
                if not d:
                    return
                data += d
            method, path, _ = data.split(b"\r\n", 1)[0].decode("latin-1").split(" ", 2)
            hook = self.on_request
            if hook is not None:
                hook(path)
            with _LOCK:
                self.log.append((time.monotonic(), method, path))
                q = self.script.get(path)
                reply = Reply(404, b"<html>not found</html>") if not q else (q.pop(0) if len(q) > 1 else q[0])
            if reply.delay:
                time.sleep(reply.delay)
            self._answer(conn, reply)
        except (OSError, ValueError):
            pass
        finally:
            try:
                conn.close()
            except OSError:
                pass

    def _answer(self, c: socket.socket, r: Reply) -> None:
        b = r.body
        if r.mode == "drop":
            return
        if r.mode == "garbage":
            c.sendall(b"\x00\x01 this is not http\r\n\r\n" + b[:64])
            return
        head = [f"HTTP/1.1 {r.status} X", "Connection: close"] + [f"{k}: {v}" for k, v in r.headers.items()]
        if r.mode == "redirect":
            head += [f"Location: {r.location}", "Content-Length: 0"]
            c.sendall("\r\n".join(head).encode() + b"\r\n\r\n")
            return
        if r.mode in ("chunked", "badchunk"):
            head.append("Transfer-Encoding: chunked")
            c.sendall("\r\n".join(head).encode() + b"\r\n\r\n")
            n = max(1, len(b) // 7)
            for k in range(0, len(b), n):
                part = b[k : k + n]
                if r.mode == "badchunk" and k >= 2 * n:
                    c.sendall(b"zz\r\n" + part)
                    return
                c.sendall(f"{len(part):x}\r\n".encode() + part + b"\r\n")
            c.sendall(b"0\r\n\r\n" if r.mode == "chunked" else b"")
            return
        if r.mode == "close":
            c.sendall("\r\n".join(head).encode() + b"\r\n\r\n" + b)
            return
        head.append(f"Content-Length: {len(b)}")
        c.sendall("\r\n".join(head).encode() + b"\r\n\r\n")
        if r.mode == "short":
            c.sendall(b[: max(0, len(b) * 2 // 3 - 1)])
        elif r.mode == "reset":
            c.sendall(b[: len(b) // 2])
            time.sleep(0.01)
            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        elif r.mode == "dribble":
            for k in range(0, len(b), max(1, len(b) // 5)):
                c.sendall(b[k : k + max(1, len(b) // 5)])
                time.sleep(0.002)
        else:
            c.sendall(b)


_SERVER: Optional[Server] = None


def server() -> Server:
    """One server per worker process (created after the fork)."""
    global _SERVER  # pylint: disable=global-statement
    if _SERVER is None or getattr(_SERVER, "pid", 0) != os.getpid():
        _SERVER = Server()
        _SERVER.pid = os.getpid()  # type: ignore[attr-defined]
    _SERVER.reset()
    return _SERVER


def closed_port() -> int:
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    port = s.getsockname()[1]
    s.close()
    return port


# ---------------------------------------------------------------------------------------------------------------------
# Archives


@dataclass
class Member:
    name: str
    data: bytes = b""
    kind: str = "file"  # file | dir | sym | hard | fifo | chr
    target: str = ""
    mode: int = 0o644


def content(rng: random.Random) -> bytes:
    n = rng.choice([0, 1, 10, 100, 1023, 1024, 1025, 5000, 70000 if rng.random() < 0.2 else 2048])
    r = rng.random()
    if r < 0.4:
        return rng.randbytes(n)
    if r < 0.5:
        return b"\0" * n
    return (b"line of text %d\n" % rng.randrange(1000) * (n // 10 + 1))[:n]


def tree(rng: random.Random, links: bool) -> list[Member]:
    """A well-behaved source tree."""
    top = f"proj-{rng.randint(0, 9)}.{rng.randint(0, 9)}" if rng.random() < 0.8 else ""
    pre = top + "/" if top else ""
    names = ["setup.py", "README.md", "src/pkg/__init__.py", "src/pkg/data.bin", "tests/test_a.py", "LICENSE", ".hidden", "a b.txt", "ünï.txt",
             "deep/er/and/deeper/f.c", "x" * 60 + "/" + "y" * 60 + ".txt", "UPPER.TXT", "upper.txt", "..data", "src/..x/f", "a\\b.txt", "ext/tar.tar.gz"]
    pick = rng.sample(names, rng.randint(1, 8))
    out: list[Member] = []
    if top and rng.random() < 0.7:
        out.append(Member(top, kind="dir", mode=0o755))
    for n in pick:
        out.append(Member(pre + n, content(rng), mode=rng.choice([0o644, 0o755, 0o600])))
    if rng.random() < 0.3:
        out.append(Member(pre + "empty_dir", kind="dir", mode=0o755))
    if rng.random() < 0.25:
        # Archives are made of other archives, too; the outer one is what counts.
        inner = [Member("inner/a.txt", b"inner"), Member("setup.py", b"inner setup")]
        if rng.random() < 0.6:
            out.append(Member(pre + "tests/data.zip", pack_zip(inner, rng, rng.choice(["stored", "deflated"]))))
        else:
            out.insert(rng.choice([0, len(out)]), Member(pre + "data.tar", pack_tar(inner, rng, rng.choice(["", "gz"]))))
    if links:
        first = next(m for m in out if m.kind == "file")
        if rng.random() < 0.5:
            out.append(Member(pre + "link_to", kind="sym", target=os.path.relpath(first.name, top or ".")))
        if rng.random() < 0.4:
            out.append(Member(pre + "hard_to", first.data, kind="hard", target=first.name, mode=first.mode))
    return out


def pack_tar(members: list[Member], rng: random.Random, comp: str, fmt: int = tarfile.PAX_FORMAT) -> bytes:
    buf = io.BytesIO()
    with tarfile.open(fileobj=buf, mode="w", format=fmt) as t:
        for m in members:
            ti = tarfile.TarInfo(m.name)
            ti.mode = m.mode
            ti.mtime = 1600000000
            ti.uid, ti.gid = rng.choice([(0, 0), (1000, 1000)])
            if m.kind == "dir":
                ti.type = tarfile.DIRTYPE
                t.addfile(ti)
            elif m.kind == "sym":
                ti.type, ti.linkname = tarfile.SYMTYPE, m.target
                t.addfile(ti)
            elif m.kind == "hard":
                ti.type, ti.linkname = tarfile.LNKTYPE, m.target
                t.addfile(ti)
            elif m.kind == "fifo":
                ti.type = tarfile.FIFOTYPE
                t.addfile(ti)
            elif m.kind == "chr":
                ti.type, ti.devmajor, ti.devminor = tarfile.CHRTYPE, 1, 3
                t.addfile(ti)
            else:
                ti.size = len(m.data)
                t.addfile(ti, io.BytesIO(m.data))
    raw = buf.getvalue()
    if comp == "gz":
        return gzip.compress(raw, rng.choice([1, 9]), mtime=0)
    if comp == "bz2":
        return bz2.compress(raw)
    if comp == "xz":
        return lzma.compress(raw)
    return raw


ZIP_METHODS = {"stored": zipfile.ZIP_STORED, "deflated": zipfile.ZIP_DEFLATED, "bzip2": zipfile.ZIP_BZIP2, "lzma": zipfile.ZIP_LZMA}


def pack_zip(members: list[Member], rng: random.Random, method: str) -> bytes:
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w", ZIP_METHODS[method]) as z:
        for m in members:
            zi = zipfile.ZipInfo(m.name + ("/" if m.kind == "dir" else ""), (2020, 1, 1, 0, 0, 0))
            zi.compress_type = ZIP_METHODS[method]
            if m.kind == "dir":
                zi.external_attr = (stat.S_IFDIR | m.mode) << 16
                z.writestr(zi, b"")
            elif m.kind == "sym":
                zi.external_attr = (stat.S_IFLNK | 0o777) << 16
                z.writestr(zi, m.target.encode())
            else:
                zi.external_attr = (stat.S_IFREG | m.mode) << 16
                z.writestr(zi, m.data)
    return buf.getvalue()


def rand_archive(rng: random.Random) -> tuple[list[Member], bytes, str, str]:
    """Returns members, bytes, the expected type and a file extension."""
    if rng.random() < 0.6:
        comp = rng.choice(["", "gz", "bz2", "xz"])
        ms = tree(rng, links=True)
        fmt = rng.choice([tarfile.PAX_FORMAT, tarfile.GNU_FORMAT])
        return ms, pack_tar(ms, rng, comp, fmt), "TARBALL", {"": ".tar", "gz": ".tar.gz", "bz2": ".tar.bz2", "xz": ".tar.xz"}[comp]
    ms = tree(rng, links=False)
    return ms, pack_zip(ms, rng, rng.choice(list(ZIP_METHODS))), "ZIP", ".zip"


def snapshot(root: str) -> dict[str, Any]:
    """Everything below a directory (symlinks are not followed)."""
    out: dict[str, Any] = {}
    for d, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(d, n)
            st = os.lstat(p)
            rel = os.path.relpath(p, root)
            if stat.S_ISLNK(st.st_mode):
                out[rel] = ("sym", os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[rel] = ("dir", stat.S_IMODE(st.st_mode))
            elif stat.S_ISREG(st.st_mode):
                with open(p, "rb") as f:
                    out[rel] = ("file", f.read(), stat.S_IMODE(st.st_mode))
            else:
                out[rel] = ("special", st.st_mode)
    return out
