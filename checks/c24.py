"""C24: hostile and malformed recipes run nothing, reveal nothing and do not make the tools hang."""

from __future__ import annotations

import os
import random
import resource
import signal
import subprocess
import sys
import time
import types
from typing import Any, Callable, Optional

from lib import recipes as R
from lib.core import CONTAINMENT, REPO, STUBS, VERIF, Obs, Violation

PROP = "C24"
LEVEL = "exploration"
RULE = (
    "Valid recipes with hostile text (YAML tags, aliases, template code, shell syntax, includes, environment and file references) put in every position, and with "
    "1-8 random edits, go through parsing, every query, rendering, editing, conversion and the commands, with an audit monitor (processes, sockets, files, evaluated code, "
    "imports), a canary module, a secret in the environment and in a file, and budgets of processor time and memory. Repeated hostile fragments (8-20 KB) look for "
    "super-quadratic work. Git sources with command-like URLs and revisions are fetched. A case is non-trivial if hostile text was in a recipe that could be parsed, or a pump ran."
)
ANCHORS = [f"conda_recipe_manager/parser/{f}" for f in (
    "recipe_reader.py", "_utils.py", "_types.py", "recipe_parser_convert.py", "recipe_parser.py", "recipe_reader_deps.py", "dependency.py", "selector_parser.py", "cbc_parser.py")]
COUNTS = {"quick": 2400, "thorough": 60000}
REQUIRED = ["parsed", "rejected", "payloads", "mutated", "pumps", "commands", "git_sources", "audit_events", "queries", "conversions", "selectors", "variants", "warmed"]
ASSUMPTIONS = [
    "YAML aliases that are nested within one line are left out (known finding C24-alias-expansion).",
    "Processor-time budgets: 15 s for up to 6 KB, 60 s for repeated fragments of up to 20 KB; memory: 700 MB.",
    "Fetching is limited to what the recipe's source section names; the check covers commands hidden in git sources only.",
]

SECRET = "s3cr3tq9x7vw2"
FIRED: list[str] = []


class Watch:
    """Listens to audit events while untrusted text is being handled."""

    def __init__(self) -> None:
        self.armed = False
        self.allowed: set[str] = set()
        self.bad: list[str] = []
        self.events = 0
        self.roots = tuple({os.path.realpath(p) + "/" for p in (sys.prefix, sys.base_prefix + "/lib/python3", REPO, STUBS, VERIF + "/lib", VERIF + "/checks", os.path.dirname(os.__file__))})

    def __call__(self, event: str, args: tuple[Any, ...]) -> None:
        if not self.armed:
            return
        self.events += 1
        if event in ("os.system", "os.exec", "os.posix_spawn", "os.spawn", "os.fork", "os.forkpty", "subprocess.Popen", "pty.spawn", "os.startfile", "os.putenv", "os.unsetenv",
                     "pickle.find_class", "ctypes.dlopen", "code.__new__", "webbrowser.open", "urllib.Request", "socket.connect", "socket.getaddrinfo", "socket.bind",
                     "socket.gethostbyname", "os.remove", "os.rename", "os.chmod", "os.symlink", "os.link", "shutil.rmtree", "shutil.copyfile", "signal.pthread_kill", "os.kill", "glob.glob"):
            self.bad.append(f"{event}{args!r:.200}")
        elif event == "socket.__new__":
            self.bad.append("socket.__new__")
        elif event == "open":
            path, mode, flags = (list(args) + [None, None, None])[:3]
            if isinstance(path, int):
                return
            p = os.path.realpath(os.fsdecode(path))
            if p in self.allowed or (p.startswith(self.roots) and not any(c in str(mode) for c in "wax+")) or p in ("/dev/null", "/dev/urandom"):
                return
            self.bad.append(f"open({p!r}, {mode!r})")
        elif event in ("os.listdir", "os.scandir"):
            p = os.path.realpath(os.fsdecode(args[0] if args and args[0] is not None else "."))
            if not (p + "/").startswith(self.roots):
                self.bad.append(f"{event}({p!r})")
        elif event == "exec":
            name = getattr(args[0], "co_filename", "?")
            if not os.path.realpath(name).startswith(self.roots) and not name.startswith("<frozen"):
                self.bad.append(f"evaluated code: {name} {getattr(args[0], 'co_names', ())!r:.200}")
        elif event == "import":
            if str(args[0]).startswith("crm_canary"):
                self.bad.append(f"import {args[0]}")


WATCH: Optional[Watch] = None


class OverBudget(BaseException):
    pass


def _on_prof(_s: int, _f: Any) -> None:
    raise OverBudget()


def _canary() -> None:
    m = types.ModuleType("crm_canary")

    def fire(*a: Any, **k: Any) -> str:
        FIRED.append(f"fire{a!r}")
        return "fired"

    class Obj:
        def __init__(self, *a: Any, **k: Any) -> None:
            FIRED.append("Obj()")

        def __setstate__(self, s: Any) -> None:
            FIRED.append("Obj.__setstate__")

        def __reduce__(self) -> Any:
            return (fire, ())

    m.fire, m.Obj = fire, Obj  # type: ignore[attr-defined]
    sys.modules["crm_canary"] = m


def setup(obs: Obs) -> None:
    global WATCH
    if WATCH is not None:
        return
    os.environ["CRM_SECRET"] = SECRET
    with open(secret_file(obs), "w", encoding="utf-8") as f:
        f.write(f"secret: {SECRET}\n")
    _canary()
    signal.signal(signal.SIGPROF, _on_prof)
    # Modules that are loaded on demand are loaded before the monitor is armed.
    for k in range(12):
        rng = random.Random(k)
        doc = R.recipe_v0(rng) if k % 3 else R.rand_doc(rng, schema=1)
        exercise(R.emit(doc) + "\nfoo: !!bad x\n" * (k == 4) + "\nbar: 2020-01-01T00:00:00Z\n", obs, rng, quiet=True)
    try:
        raise SyntaxError("x")
    except SyntaxError:
        import traceback
        import warnings

        traceback.format_exc()
        warnings.simplefilter("ignore")
    w = Watch()
    CONTAINMENT.listeners.append(w)
    WATCH = w
    obs.count("warmed")


def secret_file(obs: Obs) -> str:
    return os.path.join(obs.scratch, "secret.yaml")


# ---------------------------------------------------------------------------------------------------------------------
# Inputs


def payload(rng: random.Random, obs: Obs) -> str:
    sf = secret_file(obs)
    touch = os.path.join(obs.scratch, "pwned")
    return rng.choice([
        "!!python/object/apply:crm_canary.fire []", "!!python/object/apply:crm_canary.fire ['x']", "!!python/object/new:crm_canary.Obj []", "!!python/object:crm_canary.Obj {}",
        "!!python/name:crm_canary.fire", "!!python/module:crm_canary2", "!!python/object/apply:eval [\"__import__('crm_canary').fire()\"]", f"!!python/object/apply:os.system ['touch {touch}']",
        f"!!python/object/apply:subprocess.Popen [['touch', '{touch}']]", f"!!python/object/apply:builtins.open ['{sf}']", "!!python/tuple [1, 2]", "!!python/str x", "!!python/long 3",
        f"!include {sf}", f"!!include {sf}", f"!ENV ${{CRM_SECRET}}", "!!binary aGVsbG8=", "!!set {a, b}", "!!omap [a: 1]", "!!timestamp 2020-01-01", "!!map {}", "!local x",
        "{{ crm_canary.fire() }}", "{{ ''.__class__.__mro__[1].__subclasses__() }}", "{{ __import__('crm_canary').fire() }}", "{{ self.__init__.__globals__ }}", "${{ crm_canary.fire() }}",
        "{{ environ['CRM_SECRET'] }}", '{{ environ["CRM_SECRET"] }}', "{{ environ.get('CRM_SECRET', '') }}", "{{ os.environ['CRM_SECRET'] }}", "${{ env.get('CRM_SECRET') }}", "{{ CRM_SECRET }}",
        "$CRM_SECRET", "${CRM_SECRET}", "%CRM_SECRET%", f"{{{{ open('{sf}').read() }}}}", f"{{{{ load_file_regex(load_file='{sf}', regex_pattern='.*') }}}}", f"{{{{ load_file_data('{sf}') }}}}",
        f"`touch {touch}`", f"$(touch {touch})", f"; touch {touch} ;", f"| touch {touch}", f"file://{sf}", f"@{sf}", sf, "../secret.yaml", "secret.yaml", "~/secret.yaml", "https://127.0.0.1:9/x", "ext::sh -c touch% " + touch,
        "&a [x]", "*undefined", "<<: *x", "%s%n%x", "{0.__class__}", "{}", "\\N{DASH}", "\\x00", "\x1b[2J", "9" * 5000, "0x" + "f" * 900, "1e999", ".inf", "-.nan", "190:20:30", "1_0", "0o17", "0b1", "=", "? x", "a: b: c",
        "__import__('crm_canary').fire()", "lambda: 0", "exec('import crm_canary')", "{'a': __import__('crm_canary').fire()}", "9**9**9**9", "'x' * 10**12", "[[]] * 10**9",
        "(" * 150 + ")" * 150, "{{ name[999999999999] }}", "{{ name[-1] }}", "{{ version.split('.')[0] }}", "{{ name + version }}", "{{ 9**9**9 }}", "{{ name * 10**10 }}", "{{ range(10**10) }}",
    ])


def jinja_line(rng: random.Random, obs: Obs) -> str:
    p = payload(rng, obs)
    return rng.choice([
        f"{{% set x = {p} %}}", f"{{% set name = {p} %}}", f"{{% set version = {p} %}}", f"{{% import '{secret_file(obs)}' as m %}}", f"{{% include '{secret_file(obs)}' %}}", "{% for x in range(10**10) %}", "{% endfor %}",
        "{% if crm_canary.fire() %}", "{% endif %}", "{% set x = __import__('crm_canary').fire() %}", f"{{% set x = open('{secret_file(obs)}').read() %}}", "{% set x = environ['CRM_SECRET'] %}", "{# set x #}", "{% raw %}", "{% set = %}",
        "{% set x %}", "{% set x = %}", "{% set x = {{ y }} %}", "{% set a, b = 1, 2 %}", "{% macro f() %}", f"{{% extends '{secret_file(obs)}' %}}", "{% set x = 'a' 'b' %}", "{% set x = {1: [2, (3,)]} %}", "{% set x = b'abc' %}",
        "{% set x = {1, 2} %}", "{% set x = ... %}", "{% set x = 1+2j %}", "{% set x = '" + "\\x41" * 5 + "' %}", "{%- set x = 1 -%}", "{%set x=1%}",
    ])


def hostile(text: str, rng: random.Random, obs: Obs) -> str:
    """Puts hostile text in a random position of a recipe."""
    lines = text.split("\n")
    k = rng.randrange(len(lines))
    p = payload(rng, obs)
    r = rng.random()
    ln = lines[k]
    pad = ln[: len(ln) - len(ln.lstrip(" "))]
    if r < 0.35:
        head, sep, _ = ln.partition(": ")
        if not sep and ln.strip().startswith("- "):
            head, sep = pad + "-", " "
        lines[k] = f"{head}{sep}{p}" if sep else f"{pad}custom_key: {p}"
    elif r < 0.45:
        head, sep, tail = ln.partition(":")
        lines[k] = f"{pad}{p}:{tail}" if sep else f"{p}: x"
    elif r < 0.55:
        lines[k] = f"{ln}  # [{p}]"
    elif r < 0.6:
        lines[k] = f"{ln}  # {p}"
    elif r < 0.8:
        lines.insert(rng.choice([0, 0, k]), rng.choice(["", "", pad]) + jinja_line(rng, obs))
    elif r < 0.87:
        lines[k] = f"{pad}key: {rng.choice(['|', '>', '|-', '>+', '|2'])}\n{pad}  {p}\n{pad}  {p}"
    elif r < 0.94:
        q = p.replace("'", "''") if rng.random() < 0.7 else p
        lines[k] = f"{pad}key: '{q}'"
    else:
        lines[k] = f"{pad}key: [{p}, {payload(rng, obs)}]"
    return "\n".join(lines)


_SPECIAL = ["\t", "\0", "\ufeff", "\u2028", "\u2029", "\r", "\r\n", "\x85", "\x0b", "é", "\U0001f389", "\ud83d", ":", " ", "- ", "#", "[", "]", "{", "}", "{{", "}}", "{%", "%}", "'", '"', "|", ">", "&a", "*a", "!!set", "? ", "<<: ",
            "---\n", "...\n", "%", "@", "`", ",", "\n", "\n  ", "\\", "~", "null", "3", "- - ", "[]", "{}", "# [", "# [win]", "\\\n", "%YAML 1.1\n", "%TAG ! x\n", "- ? ", ": :", "|9", ">-+", "'''", '"""', "\\u12", "!<", "!", "*", "&"]


def mutate(t: str, rng: random.Random) -> str:
    for _ in range(rng.choice([1, 1, 2, 3, 5, 8])):
        k = rng.randrange(9)
        i = rng.randrange(len(t) + 1)
        if k < 3:
            t = t[:i] + rng.choice(_SPECIAL) + t[i:]
        elif k == 3:
            j = min(len(t), i + rng.choice([1, 1, 2, 5, 30]))
            t = t[:i] + t[j:]
        elif k == 4:
            t = t[: max(i, 1)]
        elif k == 5:
            j = min(len(t), i + rng.randint(1, 60))
            t = t[:j] + t[i:j] * rng.randint(1, 4) + t[j:]
        else:
            ls = t.split("\n")
            a, b = rng.randrange(len(ls)), rng.randrange(len(ls))
            if k == 6:
                ls[a], ls[b] = ls[b], ls[a]
            elif k == 7:
                ls.insert(a, rng.choice(["  ", " ", "    ", ""]) + ls[b])
            else:
                ls[a] = rng.choice([" ", "  ", "    ", "\t"]) + ls[a] if rng.random() < 0.5 else ls[a].lstrip(" ")
            t = "\n".join(ls)
    return t


def has_alias_nest(text: str) -> bool:
    """Aliases within the line of the anchors they refer to (known finding)."""
    return any("*" in ln and "&" in ln for ln in text.splitlines())


# ---------------------------------------------------------------------------------------------------------------------
# The operations


def exercise(text: str, obs: Obs, rng: random.Random, quiet: bool = False, deep: bool = False) -> bool:
    """Runs every operation on a text. Any exception other than the ones ruled out is an answer."""
    from conda_recipe_manager.parser.cbc_parser import CbcParser
    from conda_recipe_manager.parser.enums import SchemaVersion  # type: ignore[attr-defined]
    from conda_recipe_manager.parser.recipe_parser import RecipeParser
    from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert
    from conda_recipe_manager.parser.recipe_parser_deps import RecipeParserDeps
    from conda_recipe_manager.parser.selector_parser import SelectorParser

    outs: list[str] = []

    def step(name: str, fn: Callable[[], Any]) -> Any:
        try:
            r = fn()
            outs.append(repr(r))
            return r
        except RecursionError as e:
            if not deep:
                raise Violation(f"{name} exceeds the recursion limit on {len(text)} characters", f"recursion {name}") from e
        except MemoryError as e:
            raise Violation(f"{name} runs out of memory on {len(text)} characters", f"memory {name}") from e
        except Violation:
            raise
        except (SystemExit, KeyboardInterrupt, GeneratorExit) as e:
            raise Violation(f"{name} raises {type(e).__name__}", f"exit {name}") from e
        except Exception as e:  # pylint: disable=broad-exception-caught
            outs.append(f"{type(e).__name__}: {e}"[:2000])
            if not quiet:
                obs.seen("exceptions", f"{name} {type(e).__name__}")
        return None

    parsed = None
    try:
        parsed = RecipeParser(text)
    except RecursionError as e:
        if not deep:
            raise Violation(f"parsing {len(text)} characters exceeds the recursion limit", "recursion parse") from e
    except MemoryError as e:
        raise Violation(f"parsing {len(text)} characters runs out of memory", "memory parse") from e
    except Exception as e:  # pylint: disable=broad-exception-caught
        outs.append(str(e)[:2000])
        if not quiet:
            obs.seen("exceptions", f"parse {type(e).__name__}")
    p = parsed
    if p is not None:
        first = step("render", p.render)
        for q in ("render_to_object", "list_value_paths", "list_variables", "list_selectors", "get_comments_table", "get_package_paths", "is_multi_output", "diff", "calc_sha256",
                  "get_schema_version", "is_modified", "__str__", "get_recipe_name", "get_package_names_to_path"):
            if hasattr(p, q):
                step(q, getattr(p, q))
        step("render_to_object(True)", lambda: p.render_to_object(True))
        for path in (step("list_value_paths", p.list_value_paths) or [])[:60]:
            step("get_value", lambda path=path: p.get_value(path, default=None, sub_vars=True))
            step("contains_value", lambda path=path: p.contains_value(path))
            step("selector", lambda path=path: p.get_selector_at_path(path, ""))
        for path in ("/", "/package", "/source", "/build/number", "/requirements/run/0", "/about/license"):
            step("get_value", lambda path=path: p.get_value(path, default=None, sub_vars=True))
        for v in (step("list_variables", p.list_variables) or [])[:20]:
            step("get_variable", lambda v=v: (p.get_variable(v, None), p.get_variable_references(v)))
        step("search", lambda: (p.search("secret|name"), p.find_value("x")))
        for s in (step("list_selectors", p.list_selectors) or [])[:10]:
            step("get_selector_paths", lambda s=s: p.get_selector_paths(s))
            step("SelectorParser", lambda s=s: SelectorParser(s, SchemaVersion.V0).get_selected_platforms() if hasattr(SelectorParser, "get_selected_platforms") else str(SelectorParser(s, SchemaVersion.V0)))
            if not quiet:
                obs.count("selectors")
        if first is not None and not quiet:
            if step("render", p.render) != first:
                raise Violation("queries changed the recipe", "queries modify", text=text)
        step("patch", lambda: p.patch({"op": "add", "path": "/extra_key", "value": {"a": [1, "x"]}}))
        step("render", p.render)
        if not quiet:
            obs.count("queries")
    d = step("RecipeParserDeps", lambda: RecipeParserDeps(text))
    if d is not None:
        step("get_all_dependencies", d.get_all_dependencies)
    pre = step("pre_process", lambda: RecipeParserConvert.pre_process_recipe_text(text))
    if isinstance(pre, str):
        c = step("RecipeParserConvert", lambda: RecipeParserConvert(pre))
        if c is not None:
            step("convert", c.render_to_v1_recipe_format)
            if not quiet:
                obs.count("conversions")
    if rng.random() < 0.3:
        c = step("CbcParser", lambda: CbcParser(text))
        if c is not None:
            step("list_cbc_variables", c.list_cbc_variables)
        if not quiet:
            obs.count("variants")
    if not quiet and any(SECRET in o for o in outs):
        raise Violation("the environment or a file shows up in a result: " + next(o for o in outs if SECRET in o)[:300], "secret revealed")
    return p is not None


def commands(text: str, obs: Obs, rng: random.Random, sandbox: str) -> None:
    from click.testing import CliRunner

    from conda_recipe_manager.commands.bump_recipe import bump_recipe
    from conda_recipe_manager.commands.convert import convert
    from conda_recipe_manager.commands.patch import patch

    recipe = os.path.join(sandbox, "meta.yaml")
    out = os.path.join(sandbox, "recipe.yaml")
    pj = os.path.join(sandbox, "p.json")
    with open(recipe, "w", encoding="utf-8", errors="replace") as f:
        f.write(text)
    with open(pj, "w", encoding="utf-8") as f:
        f.write('{"op": "add", "path": "/zzz", "value": 1}')
    cmd, argv = rng.choice([(convert, [recipe]), (convert, [recipe, "-o", out]), (bump_recipe, ["--build-num", recipe]), (patch, [pj, recipe])])
    assert WATCH is not None
    WATCH.allowed = {os.path.realpath(x) for x in (recipe, out, pj)}
    WATCH.armed = True
    try:
        res = CliRunner().invoke(cmd, argv)
    finally:
        WATCH.armed = False
        WATCH.allowed = set()
    obs.count("commands")
    obs.seen("command_outcomes", f"{cmd.name} {res.exit_code} {type(res.exception).__name__ if res.exception else ''}")
    if isinstance(res.exception, (RecursionError, MemoryError)):
        raise Violation(f"{cmd.name} ends with {type(res.exception).__name__}", f"{cmd.name} {type(res.exception).__name__}")
    shown = res.output + "".join(open(x, encoding="utf-8", errors="replace").read() for x in (recipe, out) if os.path.exists(x))
    if SECRET in shown:
        raise Violation(f"{cmd.name} reveals the environment or a file", "secret revealed")


# ---------------------------------------------------------------------------------------------------------------------
# Super-linear work


def pump(rng: random.Random, size: int) -> str:
    atoms = ["a", "x.", "a+", "a + ", " ", "  ", "\t", "{", "}", "{{", "}}", "{{ ", " }}", "{%", "%}", "{% ", " %}", "[", "]", "(", ")", "match(", "match(,", ",", "'", '"', "\\n", "\\", "#", " #", "# [", "|", "| replace(", "| lower",
             "-", "- ", ":", ": ", "a: ", "=", "set ", "{% set ", "environ[", " environ", "environ['a", ".join(", "foo.", "a.b(", "}}x", "name", "{{ name", "py<3", "py ", "not py3", "not ", " and ", " or ", ">=1,", "<2|", "*", "&", "!", "%", "~", "0", "1.",
             "\n", "\n ", "\n  a: x", "\n  - x", "a: \"b\\n", "min_pin=", "hash_type", "é", "\ufeff", "${{ ", "$", "env.get(", "==", "a == b", "1.0.", "_", "$PREFIX", "@", "<", ">", "|\n", "\n- a: ", "\n#", "\n\n"]
    unit = "".join(rng.choice(atoms) for _ in range(rng.choice([1, 1, 2, 2, 3])))
    body = unit * max(1, size // max(1, len(unit)))
    end = rng.choice(["", "!", "x", "}}", ")", " %}", "\"", "'", "]", "\n", " }} y", "`"])
    place = rng.randrange(11)
    one = body.replace("\n", " ")
    head = "{% set name = 'n' %}\npackage:\n  name: foo\n  version: 1.0\n"
    texts = [
        f"{head}key: {one}{end}\n", f"{head}key: '{one}{end}'\n", f"{head}key: \"{one}{end}\"\n", f"{head}key: x # {one}{end}\n", f"{head}key: x # [{one}{end}]\n", f"{{% set v = {one}{end} %}}\n{head}", f"{{% set {one}{end}\n{head}",
        f"{head}key: {{{{ {one}{end} }}}}\n", f"{head}key:\n  - {one}{end}\n", f"{head}{one}{end}: x\n", f"{head}key: |\n  x\n  {body}{end}\n",
    ]
    if rng.random() < 0.15:
        return f"{head}{body}{end}"
    if rng.random() < 0.1:
        n = max(2, size // 40)
        kind = rng.randrange(5)
        if kind == 0:
            return head + "".join(f"k{k}: v{k}  # [linux]\n" for k in range(n))
        if kind == 1:
            return head + "requirements:\n  run:\n" + "".join(f"    - foo{k} >=1,<2  # [win]\n" for k in range(n // 2))
        if kind == 2:
            return "".join(f"{{% set v{k} = 'x' %}}\n" for k in range(n)) + head + "key: " + "".join(f"{{{{ v{k} }}}}" for k in range(n // 2)) + "\n"
        if kind == 3:
            return head + "key: " + "{{ name }}" * (n * 2) + "\n"
        return head + "about:\n  description: |\n" + "    some text\n" * n
    return texts[place]


FIXED_PUMPS: dict[str, Callable[[], str]] = {
    "match": lambda: "a: {{ " + "match(," * 2800 + " }}\n",
    "sum": lambda: "a: {{ " + "a.+" * 5000 + " }}\n",
    "word": lambda: "a: {{ " + "a" * 12000 + " }}\n",
    "opening": lambda: "a: " + "{{ " * 5000 + "\n",
    "statements": lambda: "{% set " * 3000 + "\n",
    "assignments": lambda: "{% set " + "a=" * 8000 + " ) %}\n",
    "blanks": lambda: "{% set" + " " * 15000 + "\n",
    "environ": lambda: "a: x" + " " * 18000 + "environ\n",
    "escapes": lambda: "\n ".join(["a: \"b\\n"] * 1500) + "\n",
    "brackets": lambda: "a: x # " + "[" * 18000 + "\n",
    "comments": lambda: "a: " + " #" * 9000 + "\n",
    "long_list": lambda: "a:\n" + "  - x\n" * 3000,
    "deep": lambda: "".join("  " * k + f"k{k}:\n" for k in range(90)) ,
    "flow": lambda: "a: " + "[" * 60 + "]" * 60 + "\n",
    "many_keys": lambda: "".join(f"k{k}: x\n" for k in range(2000)),
    "selectors": lambda: "requirements:\n  run:\n" + "".join(f"    - foo{k}  # [linux]\n" for k in range(250)),
    "quotes": lambda: "a: '" + "''" * 9000 + "'\n",
    "block": lambda: "a: |\n" + "  x: y # [z]\n" * 1500,
    "dots": lambda: "{% set a = b" + ".c(" * 5000 + " %}\n",
    "substitution": lambda: "a: {{ b" + ".c()" * 4000 + " }\n",
    "unterminated": lambda: "a: {{ " + "x)" * 8000 + "\n",
    "percent": lambda: "{% " + "%" * 15000 + "\n",
    "license": lambda: "about:\n  license: " + "MIT OR " * 2500 + "MIT\n",
    "version": lambda: "package:\n  name: a\n  version: " + "1." * 8000 + "1\nrequirements:\n  run:\n    - a >=" + "1." * 3000 + "\n",
}


# ---------------------------------------------------------------------------------------------------------------------


def guarded(text: str, obs: Obs, budget: float, fn: Callable[[], Any]) -> Any:
    assert WATCH is not None
    WATCH.bad.clear()
    FIRED.clear()
    before = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, hard))
    t0 = time.process_time()
    signal.setitimer(signal.ITIMER_PROF, budget)
    try:
        r = fn()
    except OverBudget as e:
        import traceback

        where = next((f"{os.path.basename(fr.filename)}:{fr.name}" for fr in reversed(traceback.extract_tb(e.__traceback__)) if fr.filename.startswith(REPO + "/")), "?")
        raise Violation(f"no answer within {budget:.0f} s of processor time for {len(text)} characters (in {where})", f"budget {where}") from e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        WATCH.armed = False
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
        obs.count("audit_events", WATCH.events)
        WATCH.events = 0
    took = time.process_time() - t0
    obs.seen("cpu_seconds_log2", str(int(max(took, 0.001) * 1000).bit_length()))
    grown = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss - before
    if grown > 700 * 1024:
        raise Violation(f"{len(text)} characters take {grown // 1024} MB of memory", "memory")
    if FIRED:
        raise Violation(f"code was run: {FIRED[:3]}", "code run")
    if WATCH.bad:
        raise Violation(f"while handling untrusted text: {WATCH.bad[:3]}", "event " + WATCH.bad[0].split("(")[0][:40])
    if os.path.lexists(os.path.join(obs.scratch, "pwned")):
        os.remove(os.path.join(obs.scratch, "pwned"))
        raise Violation("a shell command was run", "shell command")
    return r


def armed(fn: Callable[[], Any]) -> Any:
    assert WATCH is not None
    WATCH.armed = True
    try:
        return fn()
    finally:
        WATCH.armed = False


def base(rng: random.Random) -> str:
    r = rng.random()
    doc = R.recipe_v0(rng) if r < 0.6 else R.rand_doc(rng, depth=2, schema=0 if r < 0.8 else 1)
    if rng.random() < 0.2:
        R.vary(doc, rng)
    return R.emit(doc)[:6000]


def git_case(rng: random.Random, obs: Obs) -> None:
    from conda_recipe_manager.fetcher.artifact_fetcher import from_recipe
    from conda_recipe_manager.fetcher.exceptions import FetchError
    from conda_recipe_manager.parser.recipe_parser import RecipeParser

    touch = os.path.join(obs.scratch, "pwned")
    repo = os.path.join(obs.scratch, "gitrepo")
    if not os.path.isdir(repo):
        subprocess.run(["git", "init", "-q", repo], check=True)
        with open(os.path.join(repo, "f"), "w", encoding="utf-8") as f:
            f.write("x")
        subprocess.run(["git", "-C", repo, "add", "f"], check=True)
        subprocess.run(["git", "-C", repo, "commit", "-q", "-m", "x"], check=True)
    script = os.path.join(obs.scratch, "evil.sh")
    if not os.path.exists(script):
        with open(script, "w", encoding="utf-8") as f:
            f.write(f"#!/bin/sh\ntouch {touch}\n")
        os.chmod(script, 0o755)
    bad_url = rng.choice([f"ext::sh -c touch% {touch}", f"ext::{script}", f"--upload-pack={script}", f"-u{script}", f"--config=core.fsmonitor={script}", f"--template={obs.scratch}", f"fd::17/{script}", f"$(touch {touch})", f"; touch {touch}",
                          f"`touch {touch}`", f"ssh://-oProxyCommand={script}/x", f"--config core.sshCommand={script} ssh://x/y"])
    bad_ref = rng.choice([f"--upload-pack={script}", f"$(touch {touch})", f"; touch {touch}", "--orphan=x", f"--exec={script}", "-b", f"-c core.pager={script}", f"ext::{script}", "--pathspec-from-file=" + secret_file(obs)])
    v1 = rng.random() < 0.4
    use_url = rng.random() < 0.6
    url = bad_url if use_url else repo
    ref = bad_ref if (not use_url or rng.random() < 0.3) else None
    keys = ("git", "tag", "rev", "branch") if v1 else ("git_url", "git_tag", "git_rev", "git_branch")
    text = ("schema_version: 1\n" if v1 else "") + "package:\n  name: foo\n  version: 1.0\nsource:\n" + f"  {keys[0]}: '{url}'\n" + (f"  {rng.choice(keys[1:])}: '{ref}'\n" if ref else "")
    obs.data(text=text)
    obs.count("git_sources")

    def go() -> None:
        for f in from_recipe(RecipeParser(text), True).values():
            try:
                f.fetch()
                obs.seen("git", "fetched")
            except FetchError:
                obs.seen("git", "FetchError")
            except Exception as e:  # pylint: disable=broad-exception-caught
                obs.seen("git", type(e).__name__)

    guarded(text, obs, 30, go)
    obs.distinct(text)


def case(i: int, rng: random.Random, obs: Obs) -> None:
    setup(obs)
    r = i % 24
    if r == 0:
        git_case(rng, obs)
        return
    if r in (1, 2):
        text = pump(rng, 8000)
        obs.data(text=text[:300], length=len(text))
        obs.count("pumps")
        guarded(text, obs, 60, lambda: armed(lambda: exercise(text, obs, rng, deep=True)))
        obs.distinct(text)
        return
    text = base(rng)
    for _ in range(rng.choice([0, 1, 1, 1, 2, 4])):
        text = hostile(text, rng, obs)
        obs.count("payloads")
    if rng.random() < 0.4 or r in (3, 4):
        text = mutate(text, rng)
        obs.count("mutated")
    if has_alias_nest(text):
        text = text.replace("*", "x")
    obs.data(text=text)
    if r in (5, 6, 7):
        box = os.path.join(obs.scratch, "cmd")
        os.makedirs(box, exist_ok=True)
        guarded(text, obs, 15, lambda: commands(text, obs, rng, box))
        for f in os.listdir(box):
            os.remove(os.path.join(box, f))
        obs.distinct(text)
        return
    ok = guarded(text, obs, 15, lambda: armed(lambda: exercise(text, obs, rng)))
    obs.count("parsed" if ok else "rejected")
    if ok:
        obs.distinct(text)
        obs.sample(text[:400], 2)


def fixed(obs: Obs) -> list[tuple[str, Callable[[Obs], None]]]:
    def one(name: str) -> Callable[[Obs], None]:
        def run(o: Obs) -> None:
            setup(o)
            text = FIXED_PUMPS[name]()
            o.data(name=name, length=len(text))
            o.count("pumps")
            guarded(text, o, 60, lambda: armed(lambda: exercise(text, o, random.Random(name), deep=True)))
            o.distinct(name)

        return run

    return [(f"pump_{n}", one(n)) for n in FIXED_PUMPS]


def findings() -> list[tuple[str, Callable[[], Optional[str]]]]:
    def alias() -> Optional[str]:
        from conda_recipe_manager.parser.recipe_parser import RecipeParser

        def text(n: int) -> str:
            return "foo: [&a [x, x]" + "".join(f", &{chr(98 + k)} [*{chr(97 + k)}, *{chr(97 + k)}]" for k in range(n)) + "]\n"

        try:
            a, b = (len(RecipeParser(text(n)).render()) for n in (8, 12))
        except Exception:  # pylint: disable=broad-exception-caught
            return None
        return f"{len(text(8))} characters are rendered as {a}, {len(text(12))} as {b}" if b > 10 * a else None

    return [("C24-alias-expansion", alias)]
