"""C10: converting a recipe to V1 keeps what it says."""

from __future__ import annotations

import random
import re
from typing import Any, Callable, Optional

from checks import c04
from lib import recipes as R
from lib.core import Obs, Violation

PROP = "C10"
LEVEL = "exploration"
RULE = (
    "Random V0 recipes with every field that has a V1 equivalent or is deprecated (one or several outputs and sources, all section shapes, selectors on list members, booleans, other values, sections and repeated `skip` keys, Jinja in "
    "plain, quoted, block and one-line values) are converted. An independent statement of the documented mapping gives the expected V1 document from the generator's model; the converted text, read by PyYAML, must equal it, with "
    "conditions compared as boolean functions. Messages must name every field, selector and value that was not carried over, and nothing else. A case is non-trivial if at least five fields change."
)
ANCHORS = ["conda_recipe_manager/parser/recipe_parser_convert.py", "conda_recipe_manager/parser/recipe_parser.py"]
COUNTS = {"quick": 2000, "thorough": 40000}
REQUIRED = ["comments_kept", "comments_reported", "multi_output", "conditions", "python_conditions", "bool_conditions", "skip", "skip_list", "unconverted_selectors", "renamed", "deprecated", "context", "script_env", "env_errors", "pip_check", "pip_check_false", "tests",
            "source_list", "block_scalars", "one_line", "run_exports", "section_selectors", "licenses", "quoted_jinja", "misspelled", "single_values", "only_pip_check", "both_spellings", "summary_lines"]
ASSUMPTIONS = [
    "The mapping is that of the code's documentation and the tests' recorded outputs: CEP 13 and 14 are not available here.",
    "Comments other than selectors are not compared: they are documented not to be preserved.",
    "When `pip check` is the only command of a test, its requirements are dropped with it, as documented.",
    "Repeated keys other than `skip` are not generated.",
]


class If:
    """A list member under a condition."""

    def __init__(self, sel: str, value: Any) -> None:
        self.sel, self.value = sel, value

    def __repr__(self) -> str:
        return f"If({self.sel}, {self.value!r})"


class Tern:
    """A boolean under a condition."""

    def __init__(self, sel: str, value: bool) -> None:
        self.sel, self.value = sel, value

    def __repr__(self) -> str:
        return f"Tern({self.sel}, {self.value!r})"


class Skip:
    def __init__(self, sels: list[str]) -> None:
        self.sels = sels

    def __repr__(self) -> str:
        return f"Skip({self.sels})"


def listed(v: Any) -> list[Any]:
    """Lists of one member may be written as a value."""
    return v if isinstance(v, list) else [] if v is None else [v]


class License(str):
    """May be corrected, if a message says so."""


def jinja(v: Any) -> Any:
    if isinstance(v, str):
        return re.sub(r"(?<!\$)\{\{", "${{", v)
    if isinstance(v, list):
        return [jinja(x) for x in v]
    if isinstance(v, dict):
        return {k: jinja(x) for k, x in v.items()}
    return v


class Expected:
    def __init__(self, doc: R.Doc, obs: Obs) -> None:
        self.obs = obs
        self.warnings: list[str] = []
        self.errors: list[str] = []
        self.changes = 0
        root = self.base(doc.root, "")
        self.multi = "outputs" in root
        self.top = root
        if doc.variables:
            root["context"] = dict(doc.variables)
            obs.count("context")
        root["schema_version"] = 1
        self.package(root, "")
        if self.multi:
            obs.count("multi_output")
            self.rename(root, "package", "recipe")
            for k, o in enumerate(root["outputs"] or []):
                self.package(o, f"/outputs/{k}")
                pk = {n: o.pop(n) for n in ("name", "version") if n in o}
                if pk:
                    o.setdefault("package", {}).update(pk)
                    self.changes += 1

    def warn_selector(self, path: str) -> None:
        self.warnings.append(f"A non-list item had a selector at: {path}")
        self.obs.count("unconverted_selectors")

    def base(self, v: Any, path: str) -> Any:
        """The object, with conditions."""
        if isinstance(v, R.Map):
            out: dict[str, Any] = {}
            for e in v.entries:
                if isinstance(e, R.Cm):
                    continue
                p = f"{path}/{e.key}"
                if isinstance(e.value, (R.Sc, R.Multi)):
                    sel = R.selector_of(e.value.comment)
                    val = self.leaf(e.value)
                    if sel:
                        if p.endswith("/build/skip") and val is True:
                            old = out.get(e.key)
                            val = Skip((old.sels if isinstance(old, Skip) else []) + [sel])
                            if isinstance(old, Skip):
                                self.obs.count("skip_list")
                        elif p.endswith("/build/skip") and val is False:
                            pass
                        elif isinstance(val, bool):
                            val = Tern(sel, val)
                        else:
                            self.warn_selector(p)
                    out[e.key] = val
                else:
                    if R.selector_of(e.comment):
                        self.warn_selector(p)
                        if e.value is not None:
                            self.obs.count("section_selectors")
                    out[e.key] = self.base(e.value, p)
            return out
        if isinstance(v, R.Seq):
            items: list[Any] = []
            for it in v.items:
                if isinstance(it, R.Cm):
                    continue
                if isinstance(it, (R.Sc, R.Multi)):
                    sel = R.selector_of(it.comment)
                    val = self.leaf(it)
                    items.append(If(sel, val) if sel else val)
                else:
                    items.append(self.base(it, f"{path}/{len(items)}"))
            return items
        return None

    def leaf(self, v: Any) -> Any:
        if isinstance(v, R.Multi):
            self.obs.count("block_scalars")
            return jinja(R.block_value(v))
        if isinstance(v.value, list):
            self.obs.count("one_line")
        if isinstance(v.value, str) and "{{" in v.value and v.text[:1] in "'\"":
            self.obs.count("quoted_jinja")
        return jinja(v.value)

    def rename(self, o: Any, old: str, new: str) -> None:
        if isinstance(o, dict) and old in o:
            o[new] = o.pop(old)
            self.changes += 1
            self.obs.count("renamed")

    def nest(self, o: dict[str, Any], old: str, parent: str, new: str) -> None:
        if old in o:
            v = o.pop(old)
            o.setdefault(parent, {})[new] = v
            self.changes += 1
            self.obs.count("renamed")

    def deprecate(self, o: Any, path: str, fields: list[str]) -> None:
        for f in fields:
            if isinstance(o, dict) and f in o:
                del o[f]
                self.warnings.append(f"Field at `{path}/{f}` is no longer supported.")
                self.changes += 1
                self.obs.count("deprecated")

    def package(self, o: dict[str, Any], path: str) -> None:
        for s in ("skipt", "skips", "Skip"):
            if isinstance(o.get("build"), dict) and s in o["build"]:
                self.rename(o["build"], s, "skip")
                self.obs.count("misspelled")
        if "extras" in o and "extra" in o:
            self.warnings.append(f"Field at `{path}/extras` was not moved, as `{path}/extra` already exists.")
            self.obs.count("both_spellings")
        else:
            self.rename(o, "extras", "extra")
        # Sources
        src = o.get("source")
        if isinstance(src, list):
            self.obs.count("source_list")
        for s2 in src if isinstance(src, list) else [src]:
            for old, new in {"fn": "file_name", "folder": "target_directory", "git_url": "git", "git_tag": "tag", "git_rev": "rev", "git_depth": "depth"}.items():
                self.rename(s2, old, new)
            for k in ("svn_url", "hg_url"):
                if isinstance(s2, dict) and k in s2:
                    self.warnings.append("SVN packages are no longer supported in the V1 format" if k == "svn_url" else "HG (Mercurial) packages are no longer supported in the V1 format")
        # Build
        b = o.get("build")
        if isinstance(b, dict):
            for k in ("run_exports", "ignore_run_exports"):
                if k in b:
                    v = b.pop(k)
                    req = o.get("requirements")
                    if not isinstance(req, dict):
                        req = o["requirements"] = {}
                    req[k] = v
                    self.changes += 1
                    self.obs.count("run_exports")
            self.rename(b, "merge_build_host", "merge_build_and_host_envs")
            self.rename(b, "no_link", "always_copy_files")
            for old, parent, new in [
                ("entry_points", "python", "entry_points"), ("ignore_prefix_files", "prefix_detection", "ignore"), ("detect_binary_files_with_prefix", "prefix_detection", "ignore_binary_files"), ("rpaths", "dynamic_linking", "rpaths"),
                ("binary_relocation", "dynamic_linking", "binary_relocation"), ("missing_dso_whitelist", "dynamic_linking", "missing_dso_allowlist"), ("runpath_whitelist", "dynamic_linking", "rpath_allowlist"),
            ]:
                self.nest(b, old, parent, new)
            if b.get("script_env"):
                self.script_env(b, path)
            self.deprecate(b, f"{path}/build", DEPRECATED_BUILD)
            if isinstance(b.get("skip"), Skip):
                self.obs.count("skip")
        self.rename(o.get("requirements"), "run_constrained", "run_constraints")
        self.about(o.get("about"), f"{path}/about")
        if "test" in o:
            self.test(o)

    def script_env(self, b: dict[str, Any], path: str) -> None:
        env: dict[str, str] = {}
        secrets: list[Any] = []
        for it in listed(b.pop("script_env")):
            text = it.value if isinstance(it, If) else it
            if not isinstance(text, str):
                self.errors.append(f"{text}" if isinstance(it, If) else f"`{text}`")
                self.obs.count("env_errors")
                continue
            parts = [x.strip() for x in text.split("=")]
            if len(parts) == 1:
                secrets.append(If(it.sel, parts[0]) if isinstance(it, If) else parts[0])
            elif len(parts) == 2 and not isinstance(it, If):
                env[parts[0]] = parts[1]
            else:
                self.errors.append(text)
                self.obs.count("env_errors")
        new: dict[str, Any] = {}
        if env:
            new["env"] = env
        if secrets:
            new["secrets"] = secrets
        if b.get("script"):
            new["content"] = b["script"]
        b["script"] = new
        self.changes += 1
        self.obs.count("script_env")

    def about(self, a: Any, path: str) -> None:
        if not isinstance(a, dict):
            return
        self.rename(a, "home", "homepage")
        self.rename(a, "dev_url", "repository")
        self.rename(a, "doc_url", "documentation")
        if isinstance(a.get("summary"), list):
            # The lines of texts that R packages write without an indicator
            a["summary"] = "\n".join(a["summary"])
            self.obs.count("summary_lines")
        if isinstance(a.get("license"), str):
            a["license"] = License(a["license"])
            self.obs.count("licenses")
        else:
            self.warnings.append(f"No `license` provided in `{path}`")
        self.deprecate(a, path, ["prelink_message", "license_family", "identifiers", "tags", "keywords", "doc_source_url"])

    def test(self, o: dict[str, Any]) -> None:
        t = o.pop("test")
        if not t:
            return
        self.obs.count("tests")
        self.changes += 1
        if "files" in t:
            t["files"] = {"recipe": t["files"]}
        if "source_files" in t:
            t.setdefault("files", {})["source"] = t.pop("source_files")
        if "requires" in t:
            t["requirements"] = {"run": t.pop("requires")}
        host = listed((o.get("requirements") or {}).get("host"))
        if any(x == "python" for x in host if isinstance(x, str)):
            cmds = listed(t.get("commands"))
            k = next((k for k, c in enumerate(cmds) if isinstance(c, str) and c in ("pip check", "python -m pip check", "python3 -m pip check")), None)
            self.obs.count("pip_check" if k is not None else "pip_check_false")
            if k is not None:
                del cmds[k]
                if not cmds:
                    t.pop("commands", None)
                    t.pop("requirements", None)
                    self.obs.count("only_pip_check")
            t.setdefault("python", {})["pip_check"] = k is not None
        if "commands" in t:
            t["script"] = t.pop("commands")
        if "imports" in t:
            t.setdefault("python", {})["imports"] = t.pop("imports")
        tests = []
        if "python" in t:
            tests.append({"python": t.pop("python")})
        if "downstreams" in t:
            tests.append({"downstream": t.pop("downstreams")})
        if t:
            tests.append(t)
        o["tests"] = tests


DEPRECATED_BUILD = ["pre-link", "noarch_python", "features", "msvc_compiler", "requires_features", "provides_features", "preferred_env", "preferred_env_executable_paths", "disable_pip", "pin_depends", "overlinking_ignore_patterns",
                    "rpaths_patcher", "post-link", "pre-unlink"]


def v0_of(cond: str) -> Optional[str]:
    """The V0 selector of a V1 condition, for those the converter may write."""
    py = {">=2,<3": "py2k", ">=3,<4": "py3k"}

    def back(m: re.Match[str]) -> str:
        if m.group(1) in py:
            return py[m.group(1)]
        n = re.fullmatch(r"(<|>|<=|>=|==|!=)([23])\.(\d+)", m.group(1))
        return f"(py {n.group(1)} {n.group(2)}{n.group(3)})" if n else "unknown_atom"

    return f"[{re.sub(r'match\(python, \"([^\"]*)\"\)', back, cond)}]"


def canonical(sel: str) -> str:
    """py36 and py==36 are the same atom."""
    return re.sub(r"\bpy([23]\d+)\b", r"(py == \1)", sel)


def same_condition(sel: str, cond: Any, obs: Obs, rng: random.Random) -> bool:
    if not isinstance(cond, str):
        return False
    back = canonical(v0_of(cond) or "")
    obs.count("conditions")
    if "match(python" in cond:
        obs.count("python_conditions")
    if re.search(r"\bpy\s*[<>=!23]", cond):
        return False
    return c04.is_combination(back, canonical(sel), canonical(sel), True, rng)


def match(want: Any, got: Any, path: str, ctx: dict[str, Any]) -> None:
    obs, rng, msgs = ctx["obs"], ctx["rng"], ctx["warnings"]

    def bad(why: str = "") -> Violation:
        return Violation(f"{path or '/'}: expected {want!r}, converted to {got!r}{why}", f"value {re.sub('/[0-9]+', '', path).split('/')[-1]}")

    if isinstance(want, Skip):
        conds = got if isinstance(got, list) else [got]
        if len(conds) != len(want.sels):
            raise bad()
        for s in want.sels:
            if not any(same_condition(s, c, obs, rng) for c in conds):
                raise bad(f" (condition {s})")
        return
    if isinstance(want, Tern):
        m = re.fullmatch(r"\$\{\{ (true|false) if (.*) \}\}", got) if isinstance(got, str) else None
        if not m or m.group(1) != str(want.value).lower() or not same_condition(want.sel, m.group(2), obs, rng):
            raise bad()
        obs.count("bool_conditions")
        return
    if isinstance(want, If):
        if not isinstance(got, dict) or set(got) != {"if", "then"} or not same_condition(want.sel, got["if"], obs, rng):
            raise bad()
        match(want.value, got["then"], path + "/then", ctx)
        return
    if isinstance(want, License):
        if got != str(want) and f"Changed {path} from `{want}` to `{got}`" not in msgs:
            raise bad(" without a message")
        return
    if want in (None, {}, []) and not isinstance(want, (bool, int)):
        if got not in (None, {}, []):
            raise bad()
        return
    if isinstance(want, dict):
        if not isinstance(got, dict):
            raise bad()
        for k in want:
            if k not in got:
                if want[k] in (None, {}, []) and not isinstance(want[k], (bool, int)):
                    continue
                raise Violation(f"{path}/{k} is missing, expected {want[k]!r}", f"missing {k}")
            match(want[k], got[k], f"{path}/{k}", ctx)
        for k in got:
            if k not in want:
                if got[k] is None:
                    continue
                raise Violation(f"{path}/{k} is unexpected: {got[k]!r}", f"unexpected {k}")
        return
    if isinstance(want, list):
        if not isinstance(got, list) or len(want) != len(got):
            raise bad()
        for k, (a, b) in enumerate(zip(want, got)):
            match(a, b, f"{path}/{k}", ctx)
        return
    if isinstance(want, str) and isinstance(got, str):
        if want.rstrip("\n") != got.rstrip("\n"):
            raise bad()
        return
    if type(want) is not type(got) or want != got:
        raise bad()


# ---------------------------------------------------------------------------------------------------------------------


def enrich(doc: R.Doc, rng: random.Random, obs: Obs) -> None:
    """Adds fields that recipes have less often."""
    com = 0.2

    def jtext(s: str) -> str:
        return rng.choice([s, s + "-{{ name }}", "{{ name }}/" + s, s + "{{ version[:3] }}"]) if rng.random() < 0.4 else s

    def sc(s: str, c: str = "") -> R.Sc:
        t = s
        if s[0] in "{*" and s[:2] != "{{" or rng.random() < 0.15 and '"' not in s:
            t = f'"{s}"'
        return R.Sc(s, t, c)

    def lst(pool: list[str], sel: float = 0.3) -> Any:
        vals = [jtext(x) for x in rng.sample(pool, rng.randint(1, min(3, len(pool))))]
        if rng.random() < 0.15:
            return R.Sc(vals, "[" + ", ".join(f'"{v}"' for v in vals) + "]")
        return R.Seq([sc(v, R.comment(rng, sel, 0.05)) for v in vals])

    def flag(p_sel: float = 0.4) -> R.Sc:
        v = rng.random() < 0.6
        return R.Sc(v, rng.choice(["true", "True"] if v else ["false", "False"]), R.comment(rng, p_sel, 0.05))

    def put(m: R.Map, key: str, value: Any, p: float, comment: str = "") -> None:
        if rng.random() < p and m.entry(key) is None:
            m.entries.insert(rng.randint(0, len(m.entries)), R.Entry(key, value, comment))

    def package(o: R.Map, root: bool) -> None:
        b = o.get("build")
        if isinstance(b, R.Map):
            put(b, "no_link", lst(["bin/x", "lib/*", "bin/y"]), 0.1)
            put(b, "ignore_prefix_files", rng.choice([flag(), lst(["a.py", "b.h"])]), 0.12)
            put(b, "detect_binary_files_with_prefix", flag(), 0.12)
            put(b, "rpaths", lst(["lib/", "lib64/"]), 0.12)
            put(b, "binary_relocation", flag(), 0.15)
            put(b, "runpath_whitelist", lst(["/opt/*", "/usr/lib"]), 0.1)
            put(b, "missing_dso_whitelist", lst(["*.so", "/usr/lib/liby.so"]), 0.1)
            put(b, "script_env", R.Seq([sc(x, R.comment(rng, 0.25, 0.0)) for x in rng.sample(["TOKEN", "FOO=bar", "CI", "X = 1", "P={{ name }}", "A=b=c", "{{ name }}_HOME", "EMPTY=", "ROOT=/usr/lib/", "Q='it'", 'DQ="two words"', "URL=https://x.org/a/", "DASH=-x --y", "HASH=a#b", "LIST=[a, b]", "NUM=012", "FLAG=yes", "lower_case", "_X1"], rng.randint(1, 4))]
                                    + ([rng.choice([R.Sc(None, "null"), R.Sc(5, "5"), R.Sc(True, "true")])] if rng.random() < 0.1 else [])), 0.15)
            put(b, "merge_build_host", flag(), 0.1)
            put(b, rng.choice(["skipt", "skips", "Skip"]), flag(0.0), 0.06 if b.entry("skip") is None else 0.0)
            put(b, "skip", R.Sc(False, "false", rng.choice(["", "# [osx]"])), 0.05 if not any(k in ("skipt", "skips", "Skip") for k in b.keys()) else 0)
            for f in rng.sample(DEPRECATED_BUILD, 2):
                put(b, f, rng.choice([R.Sc(True, "true"), R.Sc("x", "x"), R.Seq([R.plain("a"), R.plain("b")])]), 0.06)
            put(b, "script", R.Multi(rng.choice(["|", ">", "|-"]), ["make {{ name }}", "make install"], R.comment(rng, 0.1, 0.0)), 0.1)
            put(b, "string", sc("py{{ version }}_0"), 0.1)
            put(b, "error_overlinking", flag(0.3), 0.05)
            put(b, "run_exports", R.Map([R.Entry("strong", lst(["foo", "bar >=1", "{{ pin_subpackage('foo', max_pin='x.x') }}"])), R.Entry("weak", sc("zlib"))]), 0.08)
            if b.entry("skip") is not None and isinstance(b.get("skip"), R.Sc) and R.selector_of(b.get("skip").comment) and b.get("skip").value is True and rng.random() < 0.3:
                at = b.entries.index(b.entry("skip"))
                for s in rng.sample(["[py>310]", "[s390x]", "[py2k]", "[not unix and vc<14]"], rng.randint(1, 2)):
                    b.entries.insert(at + 1, R.Entry("skip", R.Sc(True, "True", f"# {s}")))
        t = o.get("test")
        if isinstance(t, R.Map):
            put(t, "imports", lst(["foo", "foo.bar", "_ext"]), 0.15)
            put(t, "commands", R.Seq([R.Multi(rng.choice(["|", ">-"]), ["echo {{ name }}", "exit 0"], R.comment(rng, 0.3, 0.0)), sc("pip check", R.comment(rng, 0.3, 0.0)), sc("{{ name }} --help")]), 0.3)
            put(t, "requires", lst(["pip", "pytest", "python {{ version }}"]), 0.2)
            put(t, "files", lst(["a.py", "test/"]), 0.1)
            put(t, "downstreams", lst(["bar", "baz"]), 0.1)
        a = o.get("about")
        if isinstance(a, R.Map):
            for f in ("prelink_message", "identifiers", "tags", "keywords", "doc_source_url"):
                put(a, f, rng.choice([sc("x"), lst(["a", "b"], 0.1)]), 0.05)
            if rng.random() < 0.1:
                a.entries = [e for e in a.entries if not (isinstance(e, R.Entry) and e.key == "license")]
            elif rng.random() < 0.05:
                a.entry("license").value = None
            put(a, "license_url", sc("https://x.org/{{ name }}"), 0.1)
            put(a, "description", R.Multi(rng.choice(["|", ">", "|-", ">-"]), ["About {{ name }}", "", "and {{ version[:3] }} more"]), 0.15)
        for s in [x for x in (o.get("source").items if isinstance(o.get("source"), R.Seq) else [o.get("source")]) if isinstance(x, R.Map)]:
            put(s, rng.choice(["svn_url", "hg_url"]), sc("https://x.org/repo"), 0.04)
            put(s, "md5", sc("d41d8cd98f00b204e9800998ecf8427e", R.comment(rng, 0.3, 0.1)), 0.1)
            put(s, "fn", sc("{{ name }}.zip"), 0.1)
        r = o.get("requirements")
        if isinstance(r, R.Map):
            h = r.get("host")
            if isinstance(h, R.Seq) and rng.random() < 0.5:
                h.items.insert(rng.randint(0, len(h.items)), R.Sc("python", "python", rng.choice(["", "", "# [unix]", "# note"])))
            for e in r.entries:
                if isinstance(e, R.Entry) and isinstance(e.value, R.Seq) and rng.random() < 0.06:
                    e.value = lst(["python", "zlib >=1.2", "{{ compiler('c') }}"])
        # Lists with one member may be written as a value, and any field may be empty
        singles = {"build": ["script_env", "no_link", "run_exports"], "requirements": ["host", "build", "run"], "test": ["commands", "imports", "requires", "files", "source_files", "downstreams"]}
        for section, keys in singles.items():
            sec = o.get(section)
            for e5 in sec.entries if isinstance(sec, R.Map) else []:
                if isinstance(e5, R.Entry) and e5.key in keys and isinstance(e5.value, R.Seq) and isinstance(e5.value.items[0], R.Sc) and rng.random() < 0.06:
                    e5.value = rng.choice([None, e5.value.items[0], sc(rng.choice(["ipython", "python", "pip check"]))])
                    e5.comment = ""
                    obs.count("single_values")
        for e6 in [e for sec in ("build", "about", "extra") if isinstance(o.get(sec), R.Map) for e in o.get(sec).entries if isinstance(e, R.Entry) and e.key not in ("license", "skip")]:
            if rng.random() < 0.01:
                e6.value, e6.comment = None, ""
        for key in ("test", "requirements"):
            e2 = o.entry(key)
            if e2 is not None and rng.random() < 0.04:
                e2.value = None
        if root and rng.random() < 0.06 and o.entry("extra") is not None:
            o.entry("extra").key = "extras"
            if rng.random() < 0.5:
                o.entries.insert(rng.randint(0, len(o.entries)), R.Entry("extra", R.Map([R.Entry("x", sc("y"))])))
        # Selectors on sections and plain values
        for p, v, _ in list(R.walk(o)):
            if isinstance(v, (R.Sc, R.Multi)) and v.comment == "" and rng.random() < 0.01:
                v.comment = f"# {rng.choice(R.SELECTORS)}"
        e7 = a.entry("summary") if isinstance(a, R.Map) else None
        if e7 is not None and rng.random() < 0.1:
            e7.value, e7.comment = R.Seq([sc(x) for x in rng.sample(["A library", "for {{ name }}", "and other things.", "of many lines", "12 monkeys"], rng.randint(1, 4))]), ""
        for e3 in o.entries:
            if isinstance(e3, R.Entry) and isinstance(e3.value, R.Map) and rng.random() < 0.03:
                e3.comment = f"# {rng.choice(['[linux]', '[not win]'])}"
            if isinstance(e3, R.Entry) and isinstance(e3.value, R.Map):
                for e4 in e3.value.entries:
                    if isinstance(e4, R.Entry) and isinstance(e4.value, (R.Map, R.Seq)) and rng.random() < 0.02:
                        e4.comment = "# [osx and arm64]"

    package(doc.root, True)
    outs = doc.root.get("outputs")
    if isinstance(outs, R.Seq):
        for it in outs.items:
            if isinstance(it, R.Map):
                package(it, False)
    if rng.random() < 0.3:
        doc.variables[rng.choice(["flag", "tag", "pyver", "posix"])] = rng.choice([True, 3, 1.5, "1.10", "007", "it's", 'q"q', "x y", "a: b", "m2-", "", 0, False])
    # Selectors with the less common Python forms
    for p, v, c in list(R.walk(doc.root)):
        if isinstance(v, (R.Sc, R.Multi)) and R.selector_of(c) and rng.random() < 0.25:
            v.comment = "# " + rng.choice(["[py36]", "[not py27]", "[py2k]", "[py3k and win]", "[py >= 310 or osx]", "[not py3k]", "[py!=312]", "[(py<38 or win) and not osx]", "[py==27 or py36]", "[not (py37 or py38)]", "[np>120]", "[py<=39 and py>36]"])


def convert(text: str) -> tuple[Any, str, list[str], list[str]]:
    from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert
    from conda_recipe_manager.types import MessageCategory

    p = RecipeParserConvert(text)
    out, tbl, _ = p.render_to_v1_recipe_format()
    return p, out, list(tbl.get_messages(MessageCategory.WARNING)), list(tbl.get_messages(MessageCategory.ERROR))


def case(i: int, rng: random.Random, obs: Obs) -> None:
    doc = R.recipe_v0(rng, com=rng.choice([0.1, 0.3]))
    enrich(doc, rng, obs)
    if rng.random() < 0.4:
        doc.messy = random.Random(rng.random())
        doc.indent = rng.choice([2, 2, 4])
        doc.seq_indent = rng.random() < 0.6
    tagged = rng.random() < 0.5
    if tagged:
        R.tag_comments(doc, rng)
    text = R.emit(doc)
    obs.data(text=text)
    want = Expected(doc, obs)
    _, out, warnings, errors = convert(text)
    obs.data(text=text, converted=out, warnings=warnings, errors=errors)
    check(want, out, warnings, errors, rng, obs)
    if tagged:
        notes(doc, out, warnings, obs)
    if want.changes >= 5:
        obs.distinct(text)
        obs.sample({"recipe": text[:300], "converted": out[:300]}, 1)


def notes(doc: R.Doc, out: str, warnings: list[str], obs: Obs) -> None:
    """Comments on lines that are moved or dropped are reported (those on lines that stay, but are rewritten, are a finding)."""
    got = R.yaml_oracle(out)
    for p, o in R.commented(doc.root):
        m = re.search(r"\bc\d+c\b", o.comment)
        if m is None:
            continue
        word = rf"\b{m.group()}\b"
        kept = bool(re.search(word, out))
        reported = sum(bool(re.search(word, w)) for w in warnings)
        try:
            R.get_path(got, p)
            moved = False
        except KeyError:
            moved = True
        obs.count("comments_kept" if kept else "comments_reported" if reported else "comments_rewritten")
        if reported > 1 or (kept and reported):
            raise Violation(f"the comment {o.comment!r} is reported {reported} times, and it is {'kept' if kept else 'dropped'}", "comment reported")
        if moved and not kept and not reported:
            raise Violation(f"the comment {o.comment!r} of {p} is dropped without a message", "comment dropped")


def check(want: Expected, out: str, warnings: list[str], errors: list[str], rng: random.Random, obs: Obs) -> None:
    if R.has_duplicate_keys(out):
        raise Violation("the converted recipe has a key twice", "duplicate keys")
    got = R.yaml_oracle(out)
    ctx = {"obs": obs, "rng": rng, "warnings": warnings}
    # The numbers among the variables may lose their quotes
    ctx_want, ctx_got = want.top.pop("context", {}), got.pop("context", {}) or {}
    if list(ctx_want) != list(ctx_got):
        raise Violation(f"the context has {list(ctx_got)}, the recipe sets {list(ctx_want)}", "context")
    for k, v in ctx_want.items():
        g = ctx_got[k]
        if not R.same(g, v) and not (isinstance(v, str) and isinstance(g, (int, float)) and not isinstance(g, bool) and str(g) == v):
            raise Violation(f"the context has {k}: {g!r}, the recipe sets {v!r}", "context value")
    match(want.top, got, "", ctx)
    if re.search(r"(?<!\$)\{\{", "\n".join(ln for ln in out.split("\n") if not ln.lstrip().startswith("#"))):
        raise Violation("the converted recipe has Jinja substitutions of the old form", "old jinja")
    # Messages
    for w in set(want.warnings):
        if warnings.count(w) != want.warnings.count(w):
            raise Violation(f"the message {w!r} is given {warnings.count(w)} times, expected {want.warnings.count(w)}", "message missing")
    for w in warnings:
        if w not in want.warnings and not re.match(r"Could not relocate comment: |Could not patch unrecognized license: |Changed /\S*about/license from ", w):
            raise Violation(f"unexpected warning {w!r}", "unexpected warning")
    if len(errors) != len(want.errors) or any(not any(t in e for e in errors) for t in want.errors):
        raise Violation(f"errors {errors}, expected about {want.errors}", "errors")


def findings() -> list[tuple[str, Callable[[], Optional[str]]]]:
    def comments() -> Optional[str]:
        _, out, warnings, errors = convert("package:\n  name: x\nrequirements:\n  host:\n    - python  # [unix] keep me\n")
        if "keep me" not in out + "".join(warnings + errors):
            return f"the comment of `- python  # [unix] keep me` is neither converted nor reported: {out!r}"
        return None

    return [("C10-comments", comments)]


def fixed(obs: Obs) -> list[tuple[str, Callable[[Obs], None]]]:
    return []
