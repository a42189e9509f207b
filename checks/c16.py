"""C16: a bump either happens completely or leaves the recipe untouched, whatever the network and the threads do."""

from __future__ import annotations

import gc
import os
import random
import threading
import time
from typing import Any

from checks import c15
from lib import bump as B
from lib import web
from lib.core import Obs, Violation

PROP = "C16"
LEVEL = "fault_enumeration"
RULE = (
    "Bumps of recipes with 1-6 sources where every source fails 0-7 times (HTTP errors, dropped or reset connections, corrupt "
    "archives) before it answers, with random delays, so that downloads finish in different orders. The server's log is "
    "checked against the retry trace (count, order and back-off of attempts per source); the recipe must be byte-identical "
    "after any failure, and each source must get the hash of its own archive after a success. Broken recipes, missing fields "
    "and unwritable files are injected too. A case is non-trivial if a fault or a reordering was observed."
)
ANCHORS = ["conda_recipe_manager/commands/bump_recipe.py", "conda_recipe_manager/fetcher/http_artifact_fetcher.py"]
COUNTS = {"quick": 900, "thorough": 20000}
REQUIRED = ["succeeded_after_retries", "gave_up", "file_untouched", "reordered", "retries", "backoffs_checked", "dry_run_failures", "patch_failures", "parse_failures",
            "temp_dirs_gone", "interrupted"]
ASSUMPTIONS = ["The retry limit is 5 attempts with a linear back-off, as documented in the code.", "Loss of power while the file is written is not covered."]
RETRIES = 5


def faulty(rng: random.Random, body: bytes) -> web.Reply:
    k = rng.choice(["status", "drop", "reset", "html", "cut", "short"])
    if k == "status":
        return web.Reply(rng.choice([404, 429, 500, 502, 503]), b"<html/>")
    if k == "html":
        return web.Reply(200, b"<!doctype html> try again later")
    if k == "cut":
        return web.Reply(200, body[: len(body) // 2])
    return web.Reply(200, body, k)


def case(i: int, rng: random.Random, obs: Obs) -> None:
    if i % 10 == 9:
        broken_recipe(rng, obs)
        return
    srv = web.server()
    new = "2.0.1"
    for _ in range(50):
        b = B.make(rng, srv, new, max_sources=6)
        if b.sources and b.build not in ("nobuild",) and "hash_type" not in b.text:
            break
    B.serve(b, srv)
    interval = 0.01
    plan: dict[str, tuple[int, float]] = {}
    doomed = rng.random() < 0.35
    victim = rng.randrange(len(b.sources))
    for k, s in enumerate(b.sources):
        fails = rng.choice([0, 0, 0, 1, 1, 2, 4]) if not (doomed and k == victim) else rng.choice([RETRIES, RETRIES, RETRIES + 1, 7])
        url = s.url.replace("@V@", new)
        ok = srv.script[url][0]
        delay = rng.choice([0.0, 0.0, 0.01, 0.03, 0.06])
        replies = [faulty(rng, ok.body) for _ in range(fails)]
        if doomed and k == victim and rng.random() < 0.5:
            replies = [faulty(rng, ok.body)] * 10
            fails = 10
        srv.script[url] = replies + [web.Reply(200, ok.body, rng.choice(["length", "chunked", "dribble"]), delay=delay)]
        plan[url] = (fails, delay)
    path = os.path.join(obs.scratch, "recipe.yaml")
    B.write(path, b.text)
    os.chmod(path, 0o640)
    st = os.stat(path)
    dry = rng.random() < 0.15
    interrupt = rng.random() < 0.06
    args = ["-t", new, "-i", str(interval), path] + (["-d"] if dry else [])
    obs.data(text=b.text, plan=plan, dry=dry)
    before = set(os.listdir(obs.scratch))
    if interrupt:
        interrupted(srv, args, path, b, obs)
        return
    seen_during: list[bytes] = []
    srv.on_request = lambda _p: seen_during.append(B.read(path))
    res = B.run_cli(args)
    srv.on_request = None
    after = B.read(path)
    log = list(srv.log)
    if res.exception is not None and not isinstance(res.exception, SystemExit):
        raise Violation(f"the command crashed: {res.exception!r}", f"crash {type(res.exception).__name__}") from res.exception
    if any(x != b.text.encode() for x in seen_during):
        raise Violation("the file was written before every source was fetched", "written early")
    fatal = any(f >= RETRIES for f, _ in plan.values())
    if res.exit_code != (108 if fatal else 0):
        raise Violation(f"exit code {res.exit_code} with failures {[f for f, _ in plan.values()]}", f"exit code {res.exit_code} fatal={fatal}")
    # Trace of attempts per source
    for url, (fails, _) in plan.items():
        times = [t for t, _, p in log if p == url]
        want = min(fails + 1, RETRIES)
        if fatal and fails + 1 > len(times) and fails < RETRIES:
            # Other sources are given up on or completed at will once one has failed for good.
            if len(times) > want:
                raise Violation(f"{url}: {len(times)} attempts, at most {want} expected", "attempts")
        elif len(times) != want:
            raise Violation(f"{url} failed {fails} times: {len(times)} attempts, expected {want}", "attempts")
        for k in range(1, len(times)):
            if times[k] - times[k - 1] < k * interval * 0.9:
                raise Violation(f"{url}: attempt {k + 1} came {times[k] - times[k - 1]:.4f} s after the one before, back-off is {k * interval:.3f} s", "back-off")
            obs.count("backoffs_checked")
        obs.count("retries", max(0, len(times) - 1))
    stray = {p for _, _, p in log} - set(plan)
    if stray:
        raise Violation(f"requests for {stray}", "stray requests")
    order = sorted(plan, key=lambda u: max((t for t, _, p in log if p == u), default=0.0))
    obs.seen("completion_orders", [list(plan).index(u) for u in order])
    if len(plan) > 1 and order != list(plan):
        obs.count("reordered")
    if fatal:
        obs.count("gave_up")
        if after != b.text.encode():
            raise Violation("a failed bump changed the file", "failed but written")
        obs.count("file_untouched")
        if dry:
            obs.count("dry_run_failures")
            if "schema_version" in res.output or "package:" in res.output:
                raise Violation("a failed dry run printed a recipe", "failed dry run")
    else:
        if dry:
            if after != b.text.encode():
                raise Violation("a dry run changed the file", "dry run")
            text = res.output[:-1]
        else:
            text = after.decode()
        number = 0
        try:
            c15.check(b, text, new, number, obs)
        except Violation as e:
            e.data["plan"] = plan
            raise
        if any(f for f, _ in plan.values()):
            obs.count("succeeded_after_retries")
    now = os.stat(path)
    if (now.st_mode, now.st_uid) != (st.st_mode, st.st_uid):
        raise Violation("the mode or owner of the file changed", "mode")
    res = None
    gc.collect()
    left = set(os.listdir(obs.scratch)) - before
    if left:
        raise Violation(f"left behind: {left}", "left behind")
    obs.count("temp_dirs_gone")
    if any(f for f, _ in plan.values()) or order != list(plan):
        obs.distinct((b.text, sorted(plan.items()), dry))
        obs.sample({"failures": [f for f, _ in plan.values()], "exit": 108 if fatal else 0})


def interrupted(srv: web.Server, args: list[str], path: str, b: B.Bumpable, obs: Obs) -> None:
    """The user's Ctrl-C while a download is going on."""
    import _thread

    fired = threading.Event()

    def hook(_p: str) -> None:
        if not fired.is_set():
            fired.set()
            _thread.interrupt_main()

    srv.on_request = hook
    try:
        res = B.run_cli(args)
        code = res.exit_code
    except KeyboardInterrupt:
        code = 1
    # A late signal must not hit the harness
    try:
        time.sleep(0.01)
    except KeyboardInterrupt:
        pass
    srv.on_request = None
    # Downloads that were going on may still come to an end in the background.
    for th in threading.enumerate():
        if th.name.startswith("ThreadPoolExecutor"):
            th.join(20)
    if not fired.is_set():
        return
    after = B.read(path)
    if code != 0 and after != b.text.encode():
        raise Violation("an interrupted bump changed the file", "interrupted but written")
    obs.count("interrupted")
    res = None
    gc.collect()


def broken_recipe(rng: random.Random, obs: Obs) -> None:
    srv = web.server()
    body = B.archive(rng)
    srv.script["/x.tar.gz"] = [web.Reply(200, body)]
    kind = rng.choice(["no_package", "unparsable", "no_build", "bad_number", "binary", "package_list"])
    src = f"source:\n  url: {srv.base}/x.tar.gz\n  sha256: abc\n\n"
    data = {
        "no_package": f"{src}build:\n  number: 1\n",
        "package_list": f"package:\n  - a\n\n{src}build:\n  number: 1\n",
        "unparsable": f"package:\n  name: {{{{ x\n  - y: [\n{src}build:\n number: 1\n",
        "no_build": f"package:\n  name: a\n  version: 1.0.0\n\n{src}",
        "bad_number": f"package:\n  name: a\n  version: 1.0.0\n\n{src}build:\n  number: {rng.choice(['abc', '1.5', '1.0', chr(34) + '2' + chr(34), '[1]', '1e3'])}\n",
        "binary": "package:\n  name: a\n",
    }[kind].encode()
    if kind == "binary":
        data += bytes([0xFF, 0xFE, 0x00])
    path = os.path.join(obs.scratch, "recipe.yaml")
    with open(path, "wb") as f:
        f.write(data)
    args = rng.choice([["-t", "2.0.0"], ["-b"], ["-b", "-t", "2.0.0"]]) + ["-i", "0.001", path]
    if rng.random() < 0.3:
        args.append("-d")
    obs.data(kind=kind, args=args)
    res = B.run_cli(args)
    full = "-t" in args
    fails = {"no_package": full, "package_list": full, "unparsable": True, "no_build": True, "bad_number": not full, "binary": True}[kind]
    if (res.exit_code != 0) is not fails:
        raise Violation(f"{kind} {args[:-1]}: exit code {res.exit_code}", f"broken {kind}")
    if (fails or "-d" in args) and B.read(path) != data:
        raise Violation(f"{kind}: a failed bump changed the file", "failed but written")
    if fails:
        obs.count({"unparsable": "parse_failures", "no_package": "patch_failures", "package_list": "patch_failures"}.get(kind, "other_failures"))
        obs.distinct((kind, tuple(args[:-1])))
        if kind in ("no_package", "package_list") and res.exit_code != 107:
            raise Violation(f"{kind}: exit code {res.exit_code}, expected 107", "patch error code")
        if kind == "unparsable" and res.exit_code != 102:
            raise Violation(f"{kind}: exit code {res.exit_code}, expected 102", "parse error code")
