"""C19: extracting a hostile archive touches nothing outside of the directory it is extracted to."""

from __future__ import annotations

import gc
import io
import os
import random
import shutil
import stat
import tarfile
import zipfile
from typing import Any

from lib import web
from lib.core import CONTAINMENT, Obs, Violation

PROP = "C19"
LEVEL = "exploration"
RULE = (
    "Archives mixing harmless members with 1-6 hostile ones (.., absolute names, symlink and hard-link escapes, chains of "
    "links followed by writes through them, devices, fifos, setuid bits, backslashes, odd headers) are served and fetched. A canary tree "
    "around the temporary directory is compared before and after, an audit hook stops and records every write outside of the "
    "scratch directory, and the extracted tree is walked for links that leave it, special files and privileged modes. A case "
    "is non-trivial if it had a hostile member; all run inside a scratch directory."
)
ANCHORS = ["conda_recipe_manager/fetcher/http_artifact_fetcher.py"]
COUNTS = {"quick": 5000, "thorough": 150000}
REQUIRED = ["refused", "extracted", "hostile_tar", "hostile_zip", "canaries_checked", "audited_writes", "kind_dotdot", "kind_absolute", "kind_sym_write",
            "kind_sym_abs", "kind_hard_out", "kind_device", "kind_setuid", "kind_sym_chain"]
ASSUMPTIONS = ["Reading outside (hard links to files outside) counts as an escape too; resource exhaustion does not."]


def hostile(rng: random.Random, scratch: str, inside: str) -> tuple[str, list[web.Member]]:
    """`inside` is the directory of the archive file, `scratch` the one around it."""
    kind = rng.choice(["dotdot", "dotdot", "absolute", "sym_abs", "sym_rel", "sym_write", "sym_chain", "hard_out", "hard_sym", "device", "fifo",
                       "setuid", "backslash", "dot_mid", "sym_self", "sym_dir_replace", "deep_chain"])
    n = rng.randrange(100)
    up = "../" * rng.randint(1, 4)
    data = b"EVIL %d" % n
    canary = os.path.join(scratch, "canary")
    if kind == "dotdot":
        return kind, [web.Member(rng.choice([up, "ok/" + up + "../", "./" + up]) + rng.choice(["evil.txt", "canary/secret.txt", "canary/new.txt"]), data)]
    if kind == "absolute":
        return kind, [web.Member(rng.choice([canary + "/secret.txt", canary + "/abs.txt", "//" + canary[1:] + "/abs.txt", "/verif_evil_" + str(n)]), data)]
    if kind == "sym_abs":
        return kind, [web.Member(f"l{n}", kind="sym", target=rng.choice([canary, canary + "/secret.txt", "/etc/passwd", "/"]))]
    if kind == "sym_rel":
        return kind, [web.Member(f"d/l{n}", kind="sym", target=rng.choice([up + "../canary", "../../../canary/secret.txt", "..", "../..", "../../.."]))]
    if kind == "sym_write":
        t = rng.choice([canary, "../../canary", "..", "../.."])
        return kind, [web.Member(f"l{n}", kind="sym", target=t), web.Member(f"l{n}/secret.txt", data), web.Member(f"l{n}/canary/secret.txt", data)]
    if kind == "sym_chain":
        return kind, [web.Member("dir", kind="dir", mode=0o755), web.Member("dir/a", kind="sym", target="."), web.Member("dir/a/b", kind="sym", target=".."),
                      web.Member("dir/c", kind="sym", target="a/b/.."), web.Member("dir/c/evil.txt", data), web.Member("dir/b/../../evil.txt", data)]
    if kind == "deep_chain":
        # Short links nested so that the resolved path exceeds what realpath() checks
        ms: list[web.Member] = []
        comp = "d" * rng.choice([55, 240])
        path = ""
        for s in "abcdefghijklmnop"[: rng.choice([8, 16])]:
            ms += [web.Member(path + comp, kind="dir", mode=0o755), web.Member(path + s, kind="sym", target=comp)]
            path = path + s + "/" if rng.random() < 0.8 else path + comp + "/"
        ms += [web.Member(path + "l" * 254, kind="sym", target="../" * 17), web.Member("esc", kind="sym", target=path + "l" * 254 + "/canary"),
               web.Member("esc/secret.txt", data), web.Member("esc2", kind="hard", target="esc/secret.txt")]
        return kind, ms
    if kind == "hard_out":
        return kind, [web.Member(f"h{n}", kind="hard", target=rng.choice([canary + "/secret.txt", "../../canary/secret.txt", up + "canary/secret.txt"])),
                      web.Member(f"h{n}", data)]
    if kind == "hard_sym":
        return kind, [web.Member("s", kind="sym", target="../../canary/secret.txt"), web.Member(f"h{n}", kind="hard", target="s"), web.Member(f"h{n}", data)]
    if kind == "device":
        return kind, [web.Member(f"dev{n}", kind="chr")]
    if kind == "fifo":
        return kind, [web.Member(f"fifo{n}", kind="fifo")]
    if kind == "setuid":
        return kind, [web.Member(f"su{n}", data, mode=rng.choice([0o4755, 0o2755, 0o1777, 0o6777, 0o666, 0o777]))]
    if kind == "backslash":
        return kind, [web.Member("..\\..\\evil.txt", data), web.Member("C:\\evil.txt", data), web.Member("C:/evil.txt", data)]
    if kind == "dot_mid":
        return kind, [web.Member("a/../../" + "../" * rng.randint(0, 2) + "evil.txt", data), web.Member("a/./../b.txt", data)]
    if kind == "sym_self":
        return kind, [web.Member("loop", kind="sym", target="loop"), web.Member("loop/x", data)]
    return kind, [web.Member("pkg", kind="dir", mode=0o755), web.Member("pkg/f", b"1"), web.Member("pkg", kind="sym", target="../../canary"), web.Member("pkg/secret.txt", data)]


def inspect(src: str, obs: Obs) -> None:
    real = os.path.realpath(src)
    for d, dirs, files in os.walk(src):
        for n in dirs + files:
            p = os.path.join(d, n)
            st = os.lstat(p)
            rel = os.path.relpath(p, src)
            if stat.S_ISLNK(st.st_mode):
                t = os.path.realpath(p)
                if not (t == real or t.startswith(real + "/")):
                    raise Violation(f"the extracted link {rel!r} -> {os.readlink(p)!r} leads outside, to {t}", "link leads outside")
                obs.count("links_inside")
            elif not (stat.S_ISREG(st.st_mode) or stat.S_ISDIR(st.st_mode)):
                raise Violation(f"{rel!r} was extracted as a special file", "special file")
            elif st.st_mode & 0o6000:
                raise Violation(f"{rel!r} was extracted with mode {oct(st.st_mode)}", "privileged mode")
            elif stat.S_ISREG(st.st_mode) and st.st_nlink > 1:
                with open(p, "rb") as f:
                    if b"CANARY" in f.read(100):
                        raise Violation(f"{rel!r} is a hard link to a file outside", "hard link outside")


def case(i: int, rng: random.Random, obs: Obs) -> None:
    from conda_recipe_manager.fetcher.exceptions import FetchError
    from conda_recipe_manager.fetcher.http_artifact_fetcher import HttpArtifactFetcher

    srv = web.server()
    scratch = os.path.join(obs.scratch, "arena")
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(os.path.join(scratch, "canary/sub"))
    with open(os.path.join(scratch, "canary/secret.txt"), "wb") as f:
        f.write(b"CANARY")
    os.chmod(os.path.join(scratch, "canary/secret.txt"), 0o640)
    import tempfile

    old = tempfile.tempdir
    tempfile.tempdir = scratch
    opened: list[str] = []

    def listen(event: str, args: tuple[Any, ...]) -> None:
        if event == "open" and isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) and isinstance(args[0], (str, os.PathLike)):
            opened.append(os.path.realpath(os.fspath(args[0])))

    try:
        use_zip = rng.random() < 0.4
        ext = ".zip" if use_zip else ".tar.gz"
        srv_path = f"/a{ext}"
        fetcher = HttpArtifactFetcher("evil", srv.base + srv_path)
        fdir = os.path.join(scratch, (set(os.listdir(scratch)) - {"canary"}).pop())
        kinds: list[str] = []
        hostile_members: list[web.Member] = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k, ms = hostile(rng, scratch, fdir)
            kinds.append(k)
            hostile_members += ms
        good = web.tree(rng, links=not use_zip)
        if use_zip:
            hostile_members = [m for m in hostile_members if m.kind in ("file", "dir", "sym")]
        if rng.random() < 0.5:
            members = good + hostile_members
        else:
            members = hostile_members + good
        if use_zip:
            import warnings

            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                body = web.pack_zip(members, rng, rng.choice(["stored", "deflated"]))
        else:
            body = web.pack_tar(members, rng, rng.choice(["", "gz", "xz"]), rng.choice([tarfile.PAX_FORMAT, tarfile.GNU_FORMAT]))
        obs.data(kinds=kinds, zip=use_zip, members=[(m.kind, m.name[:300], m.target[:300], oct(m.mode)) for m in members])
        srv.script[srv_path] = [web.Reply(200, body)]
        around = {k: v for k, v in web.snapshot(scratch).items() if not k.startswith(os.path.basename(fdir))}
        CONTAINMENT.listeners.append(listen)
        CONTAINMENT.blocked.clear()
        try:
            fetcher.fetch()
            outcome = "extracted"
        except FetchError:
            outcome = "refused"
        finally:
            CONTAINMENT.listeners.remove(listen)
        if CONTAINMENT.blocked:
            raise Violation(f"a write outside of the sandbox was attempted: {CONTAINMENT.blocked[0]}", "write outside", kinds=kinds)
        root = os.path.realpath(fdir)
        arc = os.path.join(root, os.path.basename(srv_path))
        ex = os.path.join(root, "extracted_" + os.path.basename(srv_path))
        for p in opened:
            obs.count("audited_writes")
            if not (p == arc or p.startswith(ex + "/") or p == "/dev/null"):
                raise Violation(f"the file {p} was opened for writing", "opened outside")
        now = {k: v for k, v in web.snapshot(scratch).items() if not k.startswith(os.path.basename(fdir))}
        if now != around:
            diff = {k for k in set(now) | set(around) if now.get(k) != around.get(k)}
            raise Violation(f"files outside of the temporary directory changed: {sorted(diff)[:5]}", "canary")
        extra = set(os.listdir(fdir)) - {os.path.basename(arc), os.path.basename(ex)}
        if extra:
            raise Violation(f"files next to the extraction directory appeared: {sorted(extra)[:5]}", "beside")
        obs.count("canaries_checked")
        if os.path.isdir(ex):
            inspect(ex, obs)
        obs.count(outcome)
        obs.count("hostile_zip" if use_zip else "hostile_tar")
        for k in kinds:
            obs.count(f"kind_{k}")
            obs.seen("outcomes", f"{k} {'zip' if use_zip else 'tar'} {outcome}")
        if hostile_members:
            obs.distinct(body)
            obs.sample({"kinds": kinds, "zip": use_zip, "outcome": outcome})
        d = fdir
        del fetcher
        gc.collect()
        if os.path.exists(d):
            raise Violation("the temporary directory of a hostile archive was not removed", "left behind")
        if web.snapshot(scratch) != around:
            raise Violation("cleaning up changed files outside", "clean-up")
    finally:
        tempfile.tempdir = old
        gc.collect()
        shutil.rmtree(scratch, ignore_errors=True)
