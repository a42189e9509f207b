"""C17: fetching an archive yields exactly the bytes that were served and exactly the files that were packed."""

from __future__ import annotations

import gc
import hashlib
import os
import random
from pathlib import Path
from typing import Any

from lib import web
from lib.core import Obs, Violation

PROP = "C17"
LEVEL = "exploration"
RULE = (
    "Random source trees are packed (tar with gz/bz2/xz/no compression, zip with four methods, names that mislead about the "
    "format) and served by a loopback HTTP server in several transfer modes; 1-3 fetchers live at the same time. The packed "
    "tree, the served bytes and their hash are the oracle; the temporary directories are watched over the fetchers' life. "
    "A case is non-trivial if at least two files were extracted."
)
ANCHORS = ["conda_recipe_manager/fetcher/http_artifact_fetcher.py", "conda_recipe_manager/fetcher/base_artifact_fetcher.py",
           "conda_recipe_manager/utils/cryptography/hashing.py"]
COUNTS = {"quick": 3000, "thorough": 60000}
REQUIRED = ["tarballs", "zips", "redirects", "chunked", "misnamed", "files_compared", "symlinks", "guards", "dirs_removed", "refetched", "hash_file"]
ASSUMPTIONS = ["Archives have at least one file and no hostile members (C19 covers those).", "HTTPS is not exercised (no certificates offline)."]


def file_name(rng: random.Random, ext: str) -> str:
    return rng.choice([f"proj-1.2.3{ext}", f"v{rng.randint(0, 9)}.{rng.randint(0, 9)}{ext}", "archive", "proj.tar.gz", "proj.zip", f"a%20b{ext}",
                       "download.php", f"name.with.dots.{ext}", f"x{ext}"])


def verify(f: Any, members: list[web.Member], body: bytes, kind: str, obs: Obs) -> int:
    src = f.get_path_to_source_code()
    if not isinstance(src, Path) or not src.is_dir():
        raise Violation(f"the path to the source code is not a directory: {src!r}", "source path")
    if f.get_archive_sha256() != hashlib.sha256(body).hexdigest():
        raise Violation("the SHA-256 is not the hash of the served bytes", "sha256")
    if f.get_archive_type().name != kind:
        raise Violation(f"the archive type is {f.get_archive_type().name}, expected {kind}", "type")
    got = web.snapshot(str(src))
    want: dict[str, Any] = {}
    for m in members:
        if m.kind == "sym":
            want[os.path.normpath(m.name)] = ("sym", m.target)
            obs.count("symlinks")
        elif m.kind in ("file", "hard"):
            want[os.path.normpath(m.name)] = ("file", m.data)
    files = {k: v[:2] for k, v in got.items() if v[0] != "dir"}
    for k, v in want.items():
        if files.get(k) != v:
            raise Violation(f"{k!r} was extracted as {str(files.get(k))[:80]}, packed {str(v)[:80]}", "content")
        obs.count("files_compared")
    for k in files:
        if k not in want:
            raise Violation(f"{k!r} was not in the archive", "extra file")
    for m in members:
        if m.kind == "dir" and os.path.normpath(m.name) not in got:
            raise Violation(f"the directory {m.name!r} was not extracted", "missing dir")
    return len(files)


def guards(f: Any, obs: Obs) -> None:
    from conda_recipe_manager.fetcher.exceptions import FetchRequiredError

    for fn in (f.get_path_to_source_code, f.get_archive_sha256, f.get_archive_type):
        try:
            v = fn()
        except FetchRequiredError:
            obs.count("guards")
            continue
        raise Violation(f"{fn.__name__}() returned {v!r} before anything was fetched", "guard")


def case(i: int, rng: random.Random, obs: Obs) -> None:
    from conda_recipe_manager.fetcher.http_artifact_fetcher import HttpArtifactFetcher

    srv = web.server()
    tmp = obs.scratch
    before = set(os.listdir(tmp))
    fetchers: list[Any] = []
    n_files = 0
    sizes: list[int] = []
    for k in range(rng.choice([1, 1, 2, 3])):
        members, body, kind, ext = web.rand_archive(rng)
        fn = file_name(rng, ext)
        path = f"/{k}/{'x/' * rng.randint(0, 2)}{fn}"
        mode = rng.choice(["length", "length", "chunked", "close", "dribble"])
        url = srv.base + path
        if rng.random() < 0.2:
            hops = rng.randint(1, 3)
            for h in range(hops):
                nxt = srv.base + (path if h == hops - 1 else f"/hop{k}_{h + 1}")
                srv.script[f"/hop{k}_{h}"] = [web.Reply(rng.choice([301, 302, 307, 308]), mode="redirect", location=nxt)]
            url = f"{srv.base}/hop{k}_0"
            obs.count("redirects")
        if rng.random() < 0.2:
            srv.script[path + "?raw=1"] = [web.Reply(200, body, mode)]
            url = url if "/hop" in url else url + "?raw=1"
        if rng.random() < 0.1:
            url += "#frag"
        srv.script[path] = [web.Reply(rng.choice([200, 200, 200, 203]), body, mode)]
        if mode == "chunked":
            obs.count("chunked")
        if not fn.endswith(ext):
            obs.count("misnamed")
        obs.data(url=url, kind=kind, members=[(m.kind, m.name, len(m.data)) for m in members], mode=mode)
        f = HttpArtifactFetcher(f"pkg_{k}", url)
        guards(f, obs)
        if str(f) != f"pkg_{k}":
            raise Violation(f"str() of the fetcher is {str(f)!r}", "name")
        fetchers.append((f, members, body, kind, path))
        sizes.append(hash(body) & 0xFFFFFFFF)
    order = list(range(len(fetchers)))
    rng.shuffle(order)
    for k in order:
        fetchers[k][0].fetch()
    for f, members, body, kind, path in fetchers:
        n = verify(f, members, body, kind, obs)
        n_files = max(n_files, n)
        obs.count("tarballs" if kind == "TARBALL" else "zips")
        if not str(f.get_path_to_source_code()).startswith(tmp + "/"):
            raise Violation("the source code is outside of the temporary directory", "temp dir")
    if rng.random() < 0.2:
        f, members, body, kind, path = rng.choice(fetchers)
        f.fetch()
        verify(f, members, body, kind, obs)
        obs.count("refetched")
    # Letting go of one fetcher removes its files and no other's.
    dirs = [os.path.dirname(str(f.get_path_to_source_code())) for f, *_ in fetchers]
    if len(set(dirs)) != len(dirs):
        raise Violation("two fetchers share a directory", "shared dir")
    if any(os.stat(d).st_mode & 0o077 for d in dirs):
        raise Violation("the temporary directory is accessible to other users", "secure dir")
    while fetchers:
        gone = fetchers.pop(rng.randrange(len(fetchers)))
        d = os.path.dirname(str(gone[0].get_path_to_source_code()))
        del gone
        f = None
        gc.collect()
        if os.path.exists(d):
            raise Violation("the temporary directory outlives its fetcher", "left behind")
        obs.count("dirs_removed")
        for f, members, body, kind, _ in fetchers:
            verify(f, members, body, kind, obs)
    if set(os.listdir(tmp)) != before:
        raise Violation(f"files were left behind: {set(os.listdir(tmp)) - before}", "left behind")
    hashing(rng, obs)
    if n_files >= 2:
        obs.distinct((n_files, url.split("/", 3)[3], sizes))
        obs.sample({"url": url, "files": n_files})


def hashing(rng: random.Random, obs: Obs) -> None:
    from conda_recipe_manager.utils.cryptography.hashing import hash_file, hash_str

    data = rng.randbytes(rng.choice([0, 1, 65535, 65536, 65537, 200000, rng.randrange(300000)]))
    if rng.random() < 0.02:
        data = rng.randbytes(1 << 20) * rng.choice([9, 17, 33]) + data
        obs.count("hash_large")
    p = os.path.join(obs.scratch, "h.bin")
    with open(p, "wb") as f:
        f.write(data)
    for algo in ("sha256", "md5", "sha1", "sha512"):
        want = hashlib.new(algo, data).hexdigest()
        if hash_file(p, algo) != want or hash_file(Path(p), getattr(hashlib, algo)) != want:
            raise Violation(f"hash_file() is not the {algo} of a file of {len(data)} bytes", "hash_file")
    s = rng.choice(["", "abc", "ü✓", "a\nb\r\n"]) * rng.randint(0, 3)
    for enc in ("utf-8", "utf-16"):
        if hash_str(s, hashlib.sha256, enc) != hashlib.sha256(s.encode(enc)).hexdigest():
            raise Violation("hash_str() is not the hash of the encoded string", "hash_str")
    os.remove(p)
    obs.count("hash_file")
