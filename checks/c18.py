"""C18: whatever goes wrong while fetching an archive is reported as a fetch error, and nothing is served from a failed fetch."""

from __future__ import annotations

import gc
import gzip
import io
import os
import random
import resource
import shutil
import tarfile
import zipfile
from contextlib import ExitStack
from typing import Any
from unittest import mock

from checks import c17
from lib import web
from lib.core import Obs, Violation

PROP = "C18"
LEVEL = "fault_enumeration"
RULE = (
    "Each case injects one or two faults into a fetch: every HTTP error status, resets, truncations, bad chunks, redirect "
    "loops, refused connections, time-outs, corrupt/truncated/encrypted archives of every format at a random offset, file-size "
    "limits hit while downloading or extracting (RLIMIT_FSIZE), a vanished or blocked temporary directory. Then the server "
    "recovers and the fetch is repeated. A case is non-trivial if the fault made the fetch fail."
)
ANCHORS = ["conda_recipe_manager/fetcher/http_artifact_fetcher.py", "conda_recipe_manager/fetcher/base_artifact_fetcher.py",
           "conda_recipe_manager/fetcher/exceptions.py"]
COUNTS = {"quick": 6000, "thorough": 150000}
NET = ["status", "drop", "garbage", "short", "reset", "badchunk", "loop", "refused", "timeout", "read_timeout", "bad_url", "empty", "html", "enc"]
ARC = ["truncate", "flip", "zip_encrypted", "zip_method", "zip_crc", "random", "cut_gzip"]
FS = ["fsize_download", "fsize_extract", "dir_gone", "dir_blocked", "file_in_way"]
REQUIRED = [f"fault_{k}" for k in NET + ARC + FS] + ["failed", "recovered", "guard_after_failure", "unharmed_by_fault"]
ASSUMPTIONS = ["A corrupted archive may still extract when the damage does not matter; then the files it yields are not judged."]


def corrupt(rng: random.Random, kind: str) -> tuple[bytes, bool]:
    """Returns bytes and whether they certainly can't be extracted."""
    if kind == "random":
        return rng.choice([b"PK\x03\x04", b"\x1f\x8b\x08\x00", b"BZh9", b"\xfd7zXZ\x00", b"", b"7z\xbc\xaf\x27\x1c", b"ustar"]) + rng.randbytes(rng.randint(1, 3000)), True
    if kind == "cut_gzip":
        ms = [web.Member("a.bin", rng.randbytes(60000)), web.Member("b.bin", rng.randbytes(60000))]
        body = web.pack_tar(ms, rng, rng.choice(["gz", "bz2", "xz"]))
        return body[: rng.randint(1500, len(body) - 1200)], True
    if kind in ("zip_encrypted", "zip_method", "zip_crc"):
        ms = [web.Member("a.txt", rng.randbytes(300)), web.Member("d/b.txt", rng.randbytes(300))]
        body = bytearray(web.pack_zip(ms, rng, "stored"))
        k = body.find(b"PK\x01\x02")
        if kind == "zip_encrypted":
            while k >= 0:
                body[k + 8] |= 1
                k = body.find(b"PK\x01\x02", k + 4)
            k = body.find(b"PK\x03\x04")
            while k >= 0:
                body[k + 6] |= 1
                k = body.find(b"PK\x03\x04", k + 4)
        elif kind == "zip_method":
            m = rng.choice([1, 6, 9, 98, 99])
            body[k + 10] = m
            body[body.find(b"PK\x03\x04") + 8] = m
        else:
            p = body.find(ms[1].data[:50])
            body[p + 7] ^= 0xFF
        return bytes(body), True
    _, body, _, _ = web.rand_archive(rng)
    b = bytearray(body)
    if kind == "truncate":
        return bytes(b[: rng.randrange(len(b))]), False
    for _ in range(rng.choice([1, 1, 3, 20])):
        b[rng.randrange(len(b))] ^= rng.choice([1, 0x80, 0xFF])
    return bytes(b), False


def case(i: int, rng: random.Random, obs: Obs) -> None:
    import requests

    from conda_recipe_manager.fetcher.exceptions import FetchError
    from conda_recipe_manager.fetcher.http_artifact_fetcher import HttpArtifactFetcher

    srv = web.server()
    before = set(os.listdir(obs.scratch))
    fault = (NET + ARC + FS)[i % len(NET + ARC + FS)]
    members, body, kind, ext = web.rand_archive(rng)
    path = "/" + c17.file_name(rng, ext)
    url = srv.base + path
    must_fail = True
    stack = ExitStack()
    obs.data(fault=fault, url=url)
    ok = [web.Reply(200, body)]
    if fault == "status":
        status = rng.choice([400, 401, 403, 404, 408, 410, 418, 429, 500, 502, 503, 504])
        bad: list[web.Reply] = [web.Reply(status, rng.choice([b"<html>error</html>", body, b""]), rng.choice(["length", "chunked", "close"]))]
        obs.data(status=status)
    elif fault in ("drop", "garbage", "short", "reset", "badchunk"):
        bad = [web.Reply(200, body + rng.randbytes(4000), fault)]
    elif fault == "loop":
        bad = [web.Reply(302, mode="redirect", location=url)]
    elif fault == "empty":
        bad = [web.Reply(200, b"", rng.choice(["length", "chunked", "close"]))]
    elif fault == "html":
        bad = [web.Reply(200, b"<!doctype html><html><body>" + b"x" * rng.randint(0, 3000) + b"</body></html>")]
    elif fault == "enc":
        bad = [web.Reply(200, body, headers={"Content-Encoding": rng.choice(["gzip", "deflate"])})]
        if body[:2] == b"\x1f\x8b":
            bad = [web.Reply(200, rng.randbytes(200), headers={"Content-Encoding": "gzip"})]
    elif fault in ARC:
        b, must_fail = corrupt(rng, fault)
        bad = [web.Reply(200, b)]
        obs.data(corrupt=b[:3000].hex(), size=len(b))
    else:
        bad = ok
    if fault == "refused":
        url = f"http://127.0.0.1:{web.closed_port()}{path}"
    elif fault == "bad_url":
        url = rng.choice(["not-a-url", "ftp://127.0.0.1/x.tar.gz", "http://", "http:///x.zip", "", "http://127.0.0.1:99999/x.zip", "file:///etc/passwd",
                          srv.base + "/", srv.base, srv.base + "/..", srv.base + "/" + "n" * 300 + ".zip", "http://[::1/x.tar"])
    srv.script[path] = bad
    f: Any = None
    if fault == "bad_url":
        # A malformed URL may be refused when the fetcher is made, as unusable input.
        try:
            f = HttpArtifactFetcher("pkg", url)
        except ValueError:
            pass
        if f is None:
            obs.count("fault_bad_url")
            gc.collect()
            if set(os.listdir(obs.scratch)) != before:
                raise Violation("a temporary directory was left behind", "left behind")
            return
    else:
        f = HttpArtifactFetcher("pkg", url)
    fdir = os.path.join(obs.scratch, (set(os.listdir(obs.scratch)) - before).pop())
    old_limit = resource.getrlimit(resource.RLIMIT_FSIZE)
    if fault in ("timeout", "read_timeout"):
        exc = rng.choice([requests.exceptions.ConnectTimeout, requests.exceptions.ReadTimeout, requests.exceptions.SSLError,
                          requests.exceptions.ProxyError, requests.exceptions.ChunkedEncodingError, requests.exceptions.ConnectionError])
        if fault == "timeout":
            stack.enter_context(mock.patch("requests.sessions.Session.send", side_effect=exc))
        else:
            real = requests.models.Response.iter_content

            def broken(self: Any, chunk_size: int = 1, decode_unicode: bool = False) -> Any:
                n = 0
                for c in real(self, chunk_size, decode_unicode):
                    n += 1
                    yield c
                    if n >= 1:
                        raise exc

            stack.enter_context(mock.patch("requests.models.Response.iter_content", broken))
    elif fault == "fsize_download":
        resource.setrlimit(resource.RLIMIT_FSIZE, (max(0, len(body) - rng.randint(1, min(len(body), 4000))), old_limit[1]))
    elif fault == "fsize_extract":
        members = [web.Member("a/ok.txt", b"x" * 50), web.Member("a/zeros.bin", b"\0" * 200000)]
        body = rng.choice([web.pack_tar(members, rng, "gz"), web.pack_zip(members, rng, "deflated")])
        kind = "TARBALL" if body[:2] == b"\x1f\x8b" else "ZIP"
        srv.script[path] = ok = [web.Reply(200, body)]
        resource.setrlimit(resource.RLIMIT_FSIZE, (100000, old_limit[1]))
    elif fault == "dir_gone":
        shutil.rmtree(fdir)
    elif fault == "dir_blocked":
        name = path[1:]
        os.mkdir(os.path.join(fdir, name))
    elif fault == "file_in_way":
        with open(os.path.join(fdir, "extracted_" + path[1:]), "wb") as fh:
            fh.write(b"in the way")
    failed = False
    with stack:
        try:
            f.fetch()
        except FetchError as e:
            failed = True
            if not str(e) or e.__cause__ is None and fault not in ("empty", "html", "random", "enc", "truncate", "flip", "cut_gzip", *NET):
                raise Violation(f"the fetch error for {fault} says nothing: {e!r}", "message")
        except Exception as e:
            raise Violation(
                f"{fault}: fetch() raised {type(e).__name__}: {e} instead of a fetch error", f"raised {type(e).__name__} on {fault}"
            ) from e
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, old_limit)
    obs.count(f"fault_{fault}")
    if failed:
        obs.count("failed")
        c17.guards(f, obs)
        obs.count("guard_after_failure")
        obs.distinct((fault, body[:64], len(body), i))
        obs.seen("outcomes", f"{fault} fails")
    else:
        if must_fail:
            raise Violation(f"{fault}: the fetch reported success", f"success on {fault}")
        obs.count("unharmed_by_fault")
        f.get_path_to_source_code()
        f.get_archive_sha256()
    # The fault goes away: the same fetcher works.
    if fault not in ("bad_url", "refused", "dir_gone", "dir_blocked", "file_in_way"):
        srv.script[path] = ok
        if failed and fault not in ARC:
            f.fetch()
            c17.verify(f, members, body, kind, obs)
            obs.count("recovered")
    stack.close()
    del f
    gc.collect()
    if set(os.listdir(obs.scratch)) != before:
        raise Violation(f"left behind: {set(os.listdir(obs.scratch)) - before}", "left behind")
