"""C12: pre-processing rewrites only what it documents."""

from __future__ import annotations

import random
import re
from typing import Any, Callable

from lib import recipes as R
from lib.core import Obs, Violation

PROP = "C12"
LEVEL = "exploration"
RULE = (
    "Random V0 recipe texts, into which lines with the documented constructs (methods called with a dot in `set` statements and substitutions, chained and several in one line; `environ[]` look-ups; `hash_type` keys; quoted strings with an "
    "escaped newline; `min_pin`/`max_pin`) and look-alikes of them (dots in strings, numbers and text around substitutions, `os.environ[]`, `env.get()`, single quotes, other escapes, list members) are mixed. The generator knows the "
    "expected replacement of each line; every other line must come out as it was. The result is pre-processed again, and must stay as it is. A case is non-trivial if at least three constructs were replaced."
)
ANCHORS = ["conda_recipe_manager/parser/recipe_parser_convert.py"]
COUNTS = {"quick": 60000, "thorough": 1500000}
REQUIRED = ["dot_set", "dot_sub", "dot_chain", "dot_many", "environ", "environ_many", "hash_key", "hash_set", "hash_other", "multiline", "pins", "untouched", "lookalikes", "idempotent"]
ASSUMPTIONS = [
    "Methods are rewritten where the call ends its expression, as documented; calls followed by an index are left alone.",
    "`min_pin=` and `max_pin=` are not generated outside of Jinja expressions.",
    "Only `environ[]` look-ups with a space before them are rewritten, as documented.",
]

NAMES = ["name", "version", "foo", "py_ver", "m2", "upstream"]


def word(rng: random.Random) -> str:
    return rng.choice(["a", "foo", "x1", "lib", "v2", "Tests", "of", "é"])


def text_of(rng: random.Random, n: int = 4) -> str:
    return " ".join(word(rng) for _ in range(rng.randint(1, n)))


def arg(rng: random.Random) -> str:
    q = rng.choice("'\"")
    return rng.choice([q + rng.choice([".", "_", "-", "", "1.5", "a.b(c)", "x.y", "(", ")", " ", "%", "a(b).c"]) + q, str(rng.randint(0, 9)), "version", "1.5"])


def chain(rng: random.Random, obs: Obs, recv: str = "") -> tuple[str, str]:
    """An expression with method calls, and what it is rewritten to."""
    a = b = recv or rng.choice(NAMES)
    n = rng.choices([1, 2, 3], [70, 20, 10])[0]
    if n > 1:
        obs.count("dot_chain")
    for _ in range(n):
        f = rng.choice(["replace", "lower", "upper", "split", "title", "strip", "join"])
        if f in ("replace", "join", "split"):
            args = ", ".join(arg(rng) for _ in range({"replace": 2, "join": 1, "split": 1}[f]))
            a += f".{f}({args})"
            b += f" | {f}({args})"
        else:
            a += f".{f}()"
            b += f" | {f}" + ("" if f in ("lower", "upper") else "()")
    return a, b


def piece(rng: random.Random, obs: Obs, ind: str) -> tuple[list[str], list[str]]:
    """Lines, and the lines they become."""
    kind = rng.randint(0, 15)
    sp = rng.choice(["", " ", " ", "  "])
    if kind == 0:
        a, b = chain(rng, obs)
        obs.count("dot_set")
        head = "{%" + rng.choice([" ", " ", "  "]) + f"set {rng.choice(NAMES)} = "
        return [f"{head}{a} %}}"], [f"{head}{b} %}}"]
    if kind in (1, 2):
        n = rng.choice([1, 1, 2, 3])
        obs.count("dot_sub")
        if n > 1:
            obs.count("dot_many")
        pre = f"{ind}- " if rng.random() < 0.5 else f"{ind}{rng.choice(['url', 'fn', 'sha256', 'home'])}: "
        pre += rng.choice(["", "https://x.org/a.b/", "v1.0-", "f(x).y-"])
        a = b = pre
        for k in range(n):
            x, y = chain(rng, obs)
            sep = rng.choice(["", "-", ".", "/a.b(c)/", ".tar."]) if k < n - 1 else rng.choice(["", ".tar.gz", "-1.0", "/g.h(i)", "  # a.b(c) note", "  # [linux]"])
            a += f"{{{{{sp}{x}{sp}}}}}{sep}"
            b += f"{{{{{sp}{y}{sp}}}}}{sep}"
        if rng.random() < 0.2:
            a += " {{ name }}"
            b += " {{ name }}"
        return [a], [b]
    if kind == 3:
        n = rng.choice([1, 1, 2])
        obs.count("environ")
        if n > 1:
            obs.count("environ_many")
        a = b = f"{ind}- "
        for _ in range(n):
            q, k = rng.choice("'\""), rng.choice(["PREFIX", "R_HOME", "X1", "foo"])
            tail = rng.choice(["", "", " ~ 'x'"]) + sp
            glue = rng.choice(["/", "", ".d/"])
            a += f"{{{{ environ[{q}{k}{q}]{tail}}}}}{glue}"
            b += f"{{{{ env.get({q}{k}{q}){tail}}}}}{glue}"
        return [a], [b]
    if kind == 4:
        obs.count("hash_key")
        q = rng.choice(["", "'"])
        v = rng.choice(["hash_type", "hashtype", "hash"])
        h = f"{rng.getrandbits(256):064x}"
        return [f"{ind}{q}{{{{ {v} }}}}{q}: {h}"], [f"{ind}sha256: {h}"]
    if kind == 5:
        a, b = text_of(rng), rng.choice(["", " "]) + text_of(rng)
        if rng.random() < 0.2:
            a += " {{ name }}"
        key = rng.choice(["description", "summary", "a-b", "x_y", "license_text"])
        i2 = ind or "  "
        obs.count("multiline")
        return [f'{i2}{key}: "{a}\\n{b}"'], [f"{i2}{key}: |", f"{i2}  {a}", f"{i2}  {b}"]
    if kind == 6:
        obs.count("pins")
        f = rng.choice(["pin_subpackage", "pin_compatible"])
        args, new = [], []
        for p, nw in rng.sample([("min_pin", "lower_bound"), ("max_pin", "upper_bound")], rng.randint(1, 2)):
            v = rng.choice(["'x.x'", '"x"', "None"])
            args.append(f"{p}={v}")
            new.append(f"{nw}={v}")
        ex = rng.choice(["", ", exact=True"])
        w = word(rng)
        return [f"{ind}- {{{{ {f}('{w}', {', '.join(args)}{ex}) }}}}"], [f"{ind}- {{{{ {f}('{w}', {', '.join(new)}{ex}) }}}}"]
    # Lines that look like one of the constructs
    obs.count("lookalikes")
    a, _ = chain(rng, obs)
    n = rng.choice(NAMES)
    line = rng.choice([
        f'{{% set {n} = "1.2.3" %}}', f"{{% set {n} = 1.5 %}}{{% set {n}2 = f(2) %}}", f'{{% set {n} = "a.b(c)" %}}', f"{{% set {n} = load(file='a.b', f=g()) %}}", f'{{% set {n} = "1.2" | f() %}}',
        f"{{% set {n} = {a}[0] %}}", f'{ind}- {{{{ f("a.b(c)") }}}}', f"{ind}url: https://x.org/{{{{ {n} }}}}/f.g(1) {{{{ y() }}}}", f"{ind}url: https://x.org/a.b(c)/{{{{ {n} }}}}.d(e)", f"{ind}- python -c \"import a; a.b(c)\"",
        f'{ind}- {{{{ os.environ["X"] }}}}', f'{ind}- {{{{ env.get("X") }}}}', f"{ind}- {{{{ env.get('X', 'y') }}}}-{{{{ {n} }}}}", f'{ind}- {{{{environ["X"]}}}}', f"{ind}- echo environ[X]", f"{ind}- {{{{ my_environ['A'] }}}}",
        f"{ind or '  '}description: '{text_of(rng)}\\n{text_of(rng)}'", f"{ind}- \"{text_of(rng)}\\n{text_of(rng)}\"", f'{ind}- printf "{text_of(rng)}\\n{text_of(rng)}"', f"{ind}- python -c \"{word(rng)}: '{word(rng)}\\n{word(rng)}'\"",
        f'{ind or "  "}summary: "{text_of(rng)}\\n{text_of(rng)}\\n{text_of(rng)}"', f'{ind or "  "}summary: "a \\"b\\"\\n{text_of(rng)}"', f'{ind or "  "}summary: "a\\tb\\nc"', f'{ind or "  "}summary: "a\\\\nc"', f'{ind or "  "}summary: "{text_of(rng)}\\n{text_of(rng)}"  # note',
        f"{ind}sha256: {{{{ hash }}}}", f"{ind}hash_type: {{{{ hash_type }}}}", f"{ind}- hash: {n}", f"{ind}# {{{{ {n} }}}} a.b", f"{ind}- {{{{ {n} }}}}: x.y()", f"{ind}- {{{{ {n}[:2].z }}}}", f"{ind}- {{{{ compiler('c') }}}} 1.2.*", f"{ind}- max_pin = x.x",
        f"{ind or '  '}{{{{ hash_prefix }}}}: {n}", f"{ind or '  '}{{{{ hashes }}}}: {n}", f"{ind or '  '}{{{{ my_hash }}}}: {n}", f"{ind or '  '}'{{{{ hash_type2 }}}}': {n}", f"{ind or '  '}{{{{ hash|lower }}}}: {n}",
        f"{ind or '  '}{{{{ hash }}}}_x: {n}", f"{ind}- {{{{ hash_type }}}}={n}", f"{ind}- {{{{ name }}}}-{{{{ hash_value }}}}: x",
        f"{ind}- x.y({{{{ {n} }}}}).z()", f"{ind}- {{{{ {n} | replace('.', '') }}}}", f"{ind}- {{{{ {n}.major }}}}.{{{{ {n}.minor }}}}",
    ])
    return [line], [line]


def case(i: int, rng: random.Random, obs: Obs) -> None:
    from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert

    base = R.emit(R.recipe_v0(rng, com=rng.choice([0.0, 0.2]))).split("\n") if rng.random() < 0.4 else [f"{word(rng)}:", "  - x"] * 2
    lines: list[tuple[list[str], list[str]]] = []
    for ln in base:
        if re.search(r"\w\.\w+\(|environ|\\n|hash", ln):
            continue
        # The only construct that the base may have
        lines.append(([ln], [re.sub(r"\bmax_pin=", "upper_bound=", re.sub(r"\bmin_pin=", "lower_bound=", ln))]))
    replaced = 0
    for _ in range(rng.randint(2, 8)):
        a, b = piece(rng, obs, rng.choice(["", "  ", "    "]))
        replaced += a != b
        lines.insert(rng.randint(1, len(lines)), (a, b))
    hashes = False
    if rng.random() < 0.25:
        # The variable may name another hash; its definition goes when it is the usual one
        for var in rng.sample(["hash_type", "hashtype", "hash"], rng.randint(1, 3)):
            other = rng.choice(["md5", "sha1"]) if rng.random() < 0.3 else ""
            stmt = f'{{% set {var} = "{other or "sha256"}" %}}'
            if other:
                obs.count("hash_other")
                lines = [(a, [ln.replace("sha256:", f"{other}:") for ln in b]) if re.search(rf"\{{\{{ {var} \}}\}}'?:", a[0]) else (a, b) for a, b in lines]
                lines.insert(0, ([stmt], [stmt]))
            else:
                obs.count("hash_set")
                lines.insert(0, ([stmt], []))
            hashes = True
    text = "\n".join(ln for a, _ in lines for ln in a) + "\n"
    want = "\n".join(ln for _, b in lines for ln in b) + "\n"
    obs.data(text=text, want=want)
    got = RecipeParserConvert.pre_process_recipe_text(text)
    obs.data(text=text, want=want, got=got)
    if got != want:
        g, w = got.split("\n"), want.split("\n")
        k = next((k for k in range(min(len(g), len(w))) if g[k] != w[k]), min(len(g), len(w)))
        raise Violation(f"line {k + 1}: got {g[k:k + 2]}, expected {w[k:k + 2]}", "rewritten")
    obs.count("untouched", sum(a == b for a, b in lines))
    again = RecipeParserConvert.pre_process_recipe_text(got)
    if again != got:
        raise Violation("pre-processing again changes the text", "idempotence", again=again)
    obs.count("idempotent")
    if replaced >= 3 or hashes:
        obs.distinct(text)
        obs.sample({"text": text[:300]}, 1)


def fixed(obs: Obs) -> list[tuple[str, Callable[[Obs], None]]]:
    def empty(o: Obs) -> None:
        from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert

        for t in ("", "\n", "a: b", "package:\n  name: x\n"):
            if RecipeParserConvert.pre_process_recipe_text(t) != t:
                raise Violation(f"{t!r} is changed", "small")

    return [("texts without constructs", empty)]
