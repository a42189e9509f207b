"""C20: git sources are fetched at exactly the requested commit, and recipes are turned into the sources they declare."""

from __future__ import annotations

import gc
import os
import random
import shutil
import subprocess
from typing import Any
from unittest import mock

from lib import recipes as R
from lib import web
from lib.core import HarnessError, Obs, Violation

PROP = "C20"
LEVEL = "exploration"
RULE = (
    "Random git repositories (branches, lightweight and annotated tags, merges, files that come and go, modes, symlinks, names "
    "that clash with paths) are built with git itself in a scratch directory, and fetched through a path or a file:// URL at "
    "a random branch, tag, revision (full or short), a combination, or none; missing targets, broken repositories, work trees "
    "with changes that are not committed, and linked work trees too, whose state (HEAD, index, refs) must not change. "
    "`git ls-tree`/`cat-file` of the origin is the oracle. Recipes (V0 and V1, one or several sources, variables) are turned "
    "into fetchers and compared with what the generator wrote. A case is non-trivial if a source was compared."
)
ANCHORS = ["conda_recipe_manager/fetcher/git_artifact_fetcher.py", "conda_recipe_manager/fetcher/artifact_fetcher.py", "conda_recipe_manager/utils/typing.py"]
COUNTS = {"quick": 1600, "thorough": 30000}
REQUIRED = ["fetched_path", "fetched_url", "by_tag", "by_branch", "by_rev", "by_rev_name", "by_nothing", "by_tag_and_branch", "missing_target", "broken_repo", "uncommitted_changes", "linked_work_trees",
            "recipes", "sources_http", "sources_git", "unsupported_ignored", "unsupported_refused", "guards", "dirs_removed"]
ASSUMPTIONS = ["A name is either a tag or a branch, never both.", "Submodules and authentication are not exercised."]

ENV = {"GIT_CONFIG_GLOBAL": "/dev/null", "GIT_CONFIG_SYSTEM": "/dev/null", "GIT_AUTHOR_NAME": "v", "GIT_AUTHOR_EMAIL": "v@e.org",
       "GIT_COMMITTER_NAME": "v", "GIT_COMMITTER_EMAIL": "v@e.org", "GIT_AUTHOR_DATE": "1600000000 +0000", "GIT_COMMITTER_DATE": "1600000000 +0000"}


def git(repo: str, *args: str, binary: bool = False) -> Any:
    p = subprocess.run(["git", "-C", repo, *args], env={**os.environ, **ENV}, capture_output=True, check=False)
    if p.returncode:
        raise HarnessError(f"git {args}: {p.stderr.decode(errors='replace')}")
    return p.stdout if binary else p.stdout.decode().strip()


def build_repo(path: str, rng: random.Random) -> dict[str, Any]:
    os.makedirs(path)
    git(path, "init", "-q", "-b", rng.choice(["main", "master", "devel"]))
    default = git(path, "symbolic-ref", "--short", "HEAD")
    names = ["a.txt", "src/b.py", "docs/c.md", "run.sh", "deep/x/y.c", "data.bin"]
    branches = [default]
    tags: list[str] = []

    def commit(k: int) -> None:
        for n in rng.sample(names, rng.randint(1, 3)):
            p = os.path.join(path, n)
            if os.path.lexists(p) and rng.random() < 0.3:
                os.remove(p)
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(b"%d " % k + rng.randbytes(rng.randint(0, 40)))
            if rng.random() < 0.2:
                os.chmod(p, 0o755)
        lnk = os.path.join(path, "lnk")
        if rng.random() < 0.2:
            if os.path.lexists(lnk):
                os.remove(lnk)
            os.symlink(rng.choice(["a.txt", "dangling", "src"]), lnk)
        git(path, "add", "-A")
        git(path, "commit", "-q", "--allow-empty", "-m", f"c{k}")

    for k in range(rng.randint(2, 6)):
        if k and rng.random() < 0.35:
            b = rng.choice([f"feat{k}", f"release/{k}.x", f"v{k}-branch", f"users/someone/a-rather-long-name-{k}"])
            git(path, "checkout", "-q", "-b", b)
            branches.append(b)
        commit(k)
        if rng.random() < 0.5:
            t = rng.choice([f"v1.{k}", f"{k}.0", f"rel-{k}", f"t/{k}", f"release-2024.10.{k}-final", f"pkg/sub/v2024.10.{k}+build.1234567"])
            git(path, "tag", *(["-a", "-m", "x"] if rng.random() < 0.5 else []), t)
            tags.append(t)
        if len(branches) > 1 and rng.random() < 0.3:
            git(path, "checkout", "-q", rng.choice(branches))
    git(path, "checkout", "-q", default if rng.random() < 0.7 else rng.choice(branches))
    revs = git(path, "rev-list", "--all").split("\n")
    return {"branches": branches, "tags": tags, "revs": revs, "head": git(path, "symbolic-ref", "--short", "HEAD")}


def dirty(path: str, rng: random.Random) -> set[str]:
    """Leaves changes that are not committed in a work tree. Gives the names of the files that no commit has."""
    mine = set()
    for n in rng.sample([*tree_of(path, "HEAD")], min(2, len(tree_of(path, "HEAD")))):
        p = os.path.join(path, n)
        if os.path.islink(p):
            continue
        how = rng.choice(["edit", "edit", "staged", "gone", "mode"])
        if how in ("edit", "staged"):
            with open(p, "ab") as f:
                f.write(b"not committed")
            if how == "staged":
                git(path, "add", n)
        elif how == "gone":
            os.remove(p)
        else:
            os.chmod(p, 0o755)
    if rng.random() < 0.5:
        mine.add("untracked.txt")
    if rng.random() < 0.3:
        mine.add("staged.txt")
    for n in mine:
        with open(os.path.join(path, n), "w", encoding="utf-8") as g:
            g.write("not committed")
        if n == "staged.txt":
            git(path, "add", n)
    return mine


def state(path: str) -> str:
    return "\n".join(git(path, *a) for a in (("status", "--porcelain", "--branch"), ("rev-parse", "HEAD"), ("for-each-ref",), ("diff", "--cached", "--name-status")))


def tree_of(repo: str, ref: str) -> dict[str, Any]:
    out: dict[str, Any] = {}
    for rec in git(repo, "ls-tree", "-r", "-z", ref, binary=True).split(b"\0"):
        if not rec:
            continue
        meta, name = rec.split(b"\t", 1)
        mode, _, sha = meta.decode().split()
        data = git(repo, "cat-file", "blob", sha, binary=True)
        out[name.decode()] = ("sym", data.decode()) if mode == "120000" else ("file", data, mode == "100755")
    return out


def work_tree(path: str) -> dict[str, Any]:
    out = {}
    for k, v in web.snapshot(path).items():
        if k == ".git" or k.startswith(".git/") or v[0] == "dir":
            continue
        out[k] = v if v[0] == "sym" else ("file", v[1], bool(v[2] & 0o100))
    return out


def case(i: int, rng: random.Random, obs: Obs) -> None:
    if i % 2:
        recipe_case(rng, obs)
    else:
        git_case(rng, obs)


def git_case(rng: random.Random, obs: Obs) -> None:
    from conda_recipe_manager.fetcher.exceptions import FetchError, FetchRequiredError
    from conda_recipe_manager.fetcher.git_artifact_fetcher import GitArtifactFetcher

    before = set(os.listdir(obs.scratch))
    origin = os.path.join(obs.scratch, "origin")
    try:
        info = build_repo(origin, rng)
        is_url = rng.random() < 0.5
        linked, mine_only = False, set()
        if rng.random() < 0.25:
            # A linked work tree shares its state with the repository it belongs to
            linked = True
            wt = os.path.join(obs.scratch, "linked")
            git(origin, "worktree", "add", "-q", *(["-b", "wt"] if rng.random() < 0.5 else ["--detach"]), wt, rng.choice(info["revs"]))
            url_path = wt
            obs.count("linked_work_trees")
        else:
            url_path = origin
        if not linked and rng.random() < 0.35:
            mine_only = dirty(origin, rng)
            obs.count("uncommitted_changes")
        url = f"file://{url_path}" if is_url else url_path
        kw: dict[str, str] = {}
        kind = rng.choice(["tag", "branch", "rev", "nothing", "tag_and_branch", "rev_and_branch", "tag_and_rev", "missing", "broken"])
        if linked and kind == "broken":
            kind = "missing"
        if "tag" in kind:
            if not info["tags"]:
                kind = "branch"
            else:
                kw["tag"] = rng.choice(info["tags"])
        if "rev" in kind:
            full = rng.choice(info["revs"])
            kw["rev"] = full if rng.random() < 0.6 else full[: rng.choice([7, 12, 20])]
            if kind == "rev" and rng.random() < 0.35:
                # A revision may be any name that git resolves to a commit
                kw["rev"] = rng.choice([*info["tags"], full + "^0", *(["HEAD"] if rng.random() < 0.2 else [])])
                obs.count("by_rev_name")
        if "branch" in kind:
            kw["branch"] = rng.choice(info["branches"])
        ref = kw.get("tag") or kw.get("rev") or kw.get("branch") or "HEAD"
        if kind == "missing":
            # A target that does not exist, though a file of that name may
            files = [k.split("/")[0] for k in tree_of(url_path, "HEAD")] or ["a.txt"]
            kw[rng.choice(["tag", "branch", "rev"])] = rng.choice(["nope", "v99.99", "deadbeef" * 5, rng.choice(files)])
        if kind == "broken":
            how = rng.choice(["no_repo", "gone", "head", "objects", "file"])
            if how == "no_repo":
                shutil.rmtree(os.path.join(origin, ".git"))
            elif how == "gone":
                shutil.rmtree(origin)
            elif how == "file":
                shutil.rmtree(origin)
                with open(origin, "w", encoding="utf-8") as g:
                    g.write("not a repository")
            elif how == "head":
                os.remove(os.path.join(origin, ".git/HEAD"))
            else:
                shutil.rmtree(os.path.join(origin, ".git/objects"))
            kw = {"tag": "v1.0"} if how == "objects" else {}
            obs.data(how=how)
        obs.data(kind=kind, kw=kw, url=url, info=info)
        mine = state(origin) + state(url_path) if kind != "broken" else ""
        present = set(os.listdir(obs.scratch))
        f = GitArtifactFetcher("pkg", url, **kw)
        d = os.path.join(obs.scratch, (set(os.listdir(obs.scratch)) - present).pop())
        try:
            v = f.get_path_to_source_code()
            raise Violation(f"a path {v} is given before the fetch", "guard")
        except FetchRequiredError:
            obs.count("guards")
        try:
            f.fetch()
            ok = True
        except FetchError:
            ok = False
        except Exception as e:
            raise Violation(f"{kind}: fetch() raised {type(e).__name__}: {e}", f"raised {type(e).__name__}") from e
        if kind in ("missing", "broken"):
            obs.count("missing_target" if kind == "missing" else "broken_repo")
            if ok:
                raise Violation(f"{kind}: {kw} was fetched from {url}", f"fetched {kind}")
            try:
                v = f.get_path_to_source_code()
                raise Violation(f"a path {v} is given after a failed fetch", "guard")
            except FetchRequiredError:
                obs.count("guards")
        else:
            if not ok:
                raise Violation(f"{kind}: {kw} could not be fetched from {url}", "refused")
            got = work_tree(str(f.get_path_to_source_code()))
            want = tree_of(url_path, f"{ref}^{{commit}}")
            if not is_url:
                if not kw:
                    # A copy of a local repository, as it is
                    want = work_tree(origin) if not linked else want
                else:
                    for n in mine_only:
                        got.pop(n, None)
            if got != want:
                bad = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
                raise Violation(f"{kind} {kw}: the source is not {ref}: {bad[0]!r} is {got.get(bad[0])}, expected {want.get(bad[0])}", "tree")
            head = git(str(f.get_path_to_source_code()), "rev-parse", "HEAD")
            if head != git(url_path, "rev-parse", f"{ref}^{{commit}}"):
                raise Violation(f"{kind} {kw}: HEAD is {head}", "head")
            obs.count("fetched_url" if is_url else "fetched_path")
            obs.count(f"by_{kind}")
            obs.distinct((kind, is_url, sorted(kw.items()), head))
            obs.sample({"kind": kind, "url": is_url, **kw})
            if state(origin) + state(url_path) != mine:
                raise Violation("the origin was changed", "origin")
        del f
        gc.collect()
        if os.path.exists(d):
            raise Violation("the clone outlives its fetcher", "left behind")
        obs.count("dirs_removed")
    finally:
        shutil.rmtree(origin, ignore_errors=True)
        if os.path.isfile(origin):
            os.remove(origin)
        shutil.rmtree(os.path.join(obs.scratch, "linked"), ignore_errors=True)
    gc.collect()
    if set(os.listdir(obs.scratch)) != before:
        raise Violation(f"left behind: {set(os.listdir(obs.scratch)) - before}", "left behind")


def observe(f: Any) -> dict[str, list[str]]:
    """What does a fetcher ask the network for? (no request leaves this process)"""
    import git as gitpython
    import requests

    from conda_recipe_manager.fetcher.exceptions import FetchError

    asked: dict[str, list[str]] = {}

    def send(_self: Any, method: str, url: str, **_kw: Any) -> Any:
        asked.setdefault("http", []).append(url)
        raise requests.exceptions.ConnectionError("observed")

    class Cmd:
        def __getattr__(self, name: str) -> Any:
            return lambda *a, **_k: asked.setdefault(name, []).extend(str(x) for x in a if not str(x).startswith("-"))

    class Fake:
        git = Cmd()

        def close(self) -> None:
            pass

    def clone(url: str, *_a: Any, **_k: Any) -> Any:
        asked.setdefault("clone", []).append(str(url))
        return Fake()

    with mock.patch.object(requests.sessions.Session, "request", send), mock.patch.object(gitpython.Repo, "clone_from", clone):
        try:
            f.fetch()
        except FetchError:
            pass
    return asked


def recipe_case(rng: random.Random, obs: Obs) -> None:
    from conda_recipe_manager.fetcher.artifact_fetcher import from_recipe
    from conda_recipe_manager.fetcher.exceptions import FetchUnsupportedError
    from conda_recipe_manager.fetcher.git_artifact_fetcher import GitArtifactFetcher
    from conda_recipe_manager.fetcher.http_artifact_fetcher import HttpArtifactFetcher
    from conda_recipe_manager.parser.recipe_reader import RecipeReader

    v1 = rng.random() < 0.4
    name = R.word(rng) + rng.choice(["", "-lib", "_x"])
    ver = R.version(rng) + ".1"
    keys = {"git_url": "git", "git_branch": "branch", "git_tag": "tag", "git_rev": "rev"} if v1 else {}

    def k(x: str) -> str:
        return keys.get(x, x)

    jinja = ("${{ ", " }}") if v1 else ("{{ ", " }}")
    want: list[tuple[str, Any]] = []
    blocks: list[list[str]] = []
    n = rng.choice([0, 1, 1, 2, 3, 5])
    unsupported = False
    for _ in range(n):
        kind = rng.choice(["url", "url", "git", "git", "other"] if rng.random() < 0.4 else ["url", "git"])
        lines: list[str] = []
        if kind == "url":
            host = f"https://example.org/{R.word(rng)}"
            if rng.random() < 0.6:
                lines.append(f"url: {host}/{jinja[0]}name{jinja[1]}-{jinja[0]}version{jinja[1]}.tar.gz")
                want.append(("http", f"{host}/{name}-{ver}.tar.gz"))
            else:
                lines.append(f"url: {host}/x.zip")
                want.append(("http", f"{host}/x.zip"))
            lines.append(f"sha256: {R.sha256(rng)}")
        elif kind == "git":
            u = f"https://example.org/{R.word(rng)}.git"
            kw: dict[str, Any] = {"url": u, "branch": None, "tag": None, "rev": None}
            lines.append(f"{k('git_url')}: {u}")
            for opt in ("branch", "tag", "rev"):
                if rng.random() < 0.4:
                    if opt == "tag" and rng.random() < 0.5:
                        lines.append(f"{k('git_' + opt)}: v{jinja[0]}version{jinja[1]}")
                        kw[opt] = "v" + ver
                    else:
                        kw[opt] = rng.choice([R.word(rng), R.sha256(rng)[:40], f"release-{R.word(rng)}-{ver}-final", f"{R.word(rng)}/{R.word(rng)}_{R.word(rng)}"])
                        lines.append(f"{k('git_' + opt)}: {kw[opt]}")
            rng.shuffle(lines)
            want.append(("git", kw))
        else:
            lines.append(rng.choice(["path: ../src", "svn_url: https://example.org/svn", "hg_url: https://example.org/hg"]))
            want.append(("other", None))
            unsupported = True
        if rng.random() < 0.3:
            lines.append(f"folder: {R.word(rng)}")
        if rng.random() < 0.2:
            lines.append("patches: [p.patch]" if rng.random() < 0.5 else "patches:\n      - p.patch")
        blocks.append(lines)
    as_list = n > 1 or (n == 1 and rng.random() < 0.4)
    head = (f"schema_version: 1\n\ncontext:\n  name: {name}\n  version: \"{ver}\"\n" if v1
            else f"{{% set name = \"{name}\" %}}\n{{% set version = \"{ver}\" %}}\n")
    no_name = rng.random() < 0.1
    text = head + "\npackage:\n" + ("" if no_name else f"  name: {jinja[0]}name{jinja[1]}\n") + f"  version: {jinja[0]}version{jinja[1]}\n\n"
    if n:
        text += "source:\n"
        for b in blocks:
            for j, ln in enumerate(b):
                text += (("  - " if j == 0 else "    ") if as_list else "  ") + (ln if as_list else ln.replace("      - ", "    - ")) + "\n"
    text += "\nbuild:\n  number: 0\n"
    obs.data(text=text, want=want)
    r = RecipeReader(text)
    before = r.render()
    try:
        got = from_recipe(r)
        if unsupported:
            raise Violation(f"a source that is not supported was accepted: {list(got)}", "unsupported accepted")
    except FetchUnsupportedError:
        if not unsupported:
            raise Violation("a supported source was refused", "supported refused") from None
        obs.count("unsupported_refused")
        got = from_recipe(r, ignore_unsupported=True)
        obs.count("unsupported_ignored")
    paths = [f"/source/{j}" if as_list else "/source" for j in range(n)]
    expected = {p: w for p, w in zip(paths, want) if w[0] != "other"}
    if list(got) != list(expected):
        raise Violation(f"the sources are {list(got)}, expected {list(expected)}", "source paths")
    label = "Unknown Recipe" if no_name else name
    for j, (p, w) in enumerate(zip(paths, want)):
        if w[0] == "other":
            continue
        f = got[p]
        if str(f) != (label if n == 1 else f"{label}_{j}"):
            raise Violation(f"{p} is named {str(f)!r}", "source name")
        if w[0] == "http":
            asked = observe(f) if isinstance(f, HttpArtifactFetcher) else {}
            if asked.get("http") != [w[1]]:
                raise Violation(f"{p}: {asked} is asked for instead of {w[1]}", "http source")
            obs.count("sources_http")
        else:
            asked = observe(f) if isinstance(f, GitArtifactFetcher) else {}
            target = w[1]["tag"] or w[1]["rev"] or w[1]["branch"]
            if asked.get("clone") != [w[1]["url"]] or asked.get("checkout", []) != ([target] if target else []):
                raise Violation(f"{p}: {asked} is asked for instead of {w[1]}", "git source")
            obs.count("sources_git")
    if r.render() != before or r.is_modified():
        raise Violation("looking up the sources changed the recipe", "side effect")
    obs.count("recipes")
    if n:
        obs.distinct(text)
