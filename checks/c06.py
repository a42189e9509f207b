"""C06: a selector selects exactly the platforms its boolean expression says."""

from __future__ import annotations

import itertools
import random
from typing import Any, Callable

from lib.core import Obs, Violation

PROP = "C06"
LEVEL = "exploration"
RULE = (
    "Every expression with up to 3 operands (fixed cases) and random expressions with up to 24 operands, random grouping, "
    "spacing and letter case are generated as trees; the text goes to the real selector parser, the tree is evaluated as "
    "a boolean expression for each of the 14 platforms separately. A case is non-trivial if the expression selects some "
    "but not all platforms."
)
ANCHORS = ["conda_recipe_manager/parser/selector_parser.py", "conda_recipe_manager/parser/platform_types.py"]
COUNTS = {"quick": 40000, "thorough": 1200000}
REQUIRED = ["expressions", "platform_decisions", "parentheses", "mixed_and_or", "double_not", "unknown_operands", "multi_word_operands", "mutated_answers"]
ASSUMPTIONS = [
    "Operands the parser does not recognise (py<38, linux64, ...) select no platform, as the tests pin.",
    "The platform tables of conda-build are written down in the check.",
]

LINUX = ["linux-32", "linux-64", "linux-aarch64", "linux-armv6l", "linux-armv7l", "linux-ppc64", "linux-ppc64le", "linux-riscv64", "linux-s390x"]
OSX = ["osx-64", "osx-arm64"]
WIN = ["win-32", "win-64", "win-arm64"]
ALL = LINUX + OSX + WIN
TABLE: dict[str, list[str]] = {
    "linux": LINUX, "osx": OSX, "win": WIN, "unix": LINUX + OSX,
    "s390x": ["linux-s390x"], "x86": ["linux-32", "win-32", "linux-64", "osx-64", "win-64"], "x86_64": ["linux-64", "osx-64", "win-64"],
    "arm64": ["osx-arm64", "win-arm64"], "armv6l": ["linux-armv6l"], "armv7l": ["linux-armv7l"], "ppc64": ["linux-ppc64"],
    "ppc64le": ["linux-ppc64le"],
    **{p: [p] for p in ALL},
}
UNKNOWN = ["py<38", "py==310", "foo", "vc<14", "cuda_compiler_version", "np", "mpi!='nompi'", "py27", "rb", "cos6", "freebsd"]
MULTI = ["py >= 38", "build_platform != target_platform", "cuda_compiler_version == \"None\"", "vc < 14", "python_impl == 'pypy'",
         "environ.get(\"CI\") == \"1\""]


def rand_tree(rng: random.Random, n: int) -> Any:
    if n == 1:
        r = rng.random()
        if r < 0.12:
            return ("?", rng.choice(UNKNOWN))
        if r < 0.18:
            return ("?", rng.choice(MULTI))
        return ("v", rng.choice(list(TABLE)) if r < 0.6 else rng.choice(["linux", "osx", "win", "unix", "arm64", "x86_64", "x86"]))
    if rng.random() < 0.3:
        return ("not", rand_tree(rng, n))
    k = rng.randint(1, n - 1)
    return (rng.choice(["and", "or"]), rand_tree(rng, k), rand_tree(rng, n - k))


PREC = {"or": 1, "and": 2, "not": 3, "v": 4, "?": 4}


def text_of(t: Any, rng: Any, parent: int = 0, right: bool = False) -> str:
    """Writes the tree with the parentheses it needs, and sometimes more."""
    op = t[0]

    def case(w: str) -> str:
        return rng.choice([w, w, w, w.upper(), w.capitalize()]) if rng else w

    def gap() -> str:
        return " " * rng.choice([1, 1, 1, 2, 3]) if rng else " "

    if op == "v":
        s = case(t[1])
    elif op == "?":
        s = t[1]
    elif op == "not":
        s = case("not") + gap() + text_of(t[1], rng, 3)
    else:
        s = text_of(t[1], rng, PREC[op]) + gap() + case(op) + gap() + text_of(t[2], rng, PREC[op], True)
    # `and`/`or` are associative: grouping on the right does not change the meaning
    need = PREC[op] < parent
    if need or (rng and rng.random() < 0.08):
        pad = " " if rng and rng.random() < 0.2 else ""
        s = f"({pad}{s}{pad})"
    return s


def holds(t: Any, platform: str) -> bool:
    op = t[0]
    if op == "v":
        return platform in TABLE[t[1]]
    if op == "?":
        return False
    if op == "not":
        return not holds(t[1], platform)
    if op == "and":
        return holds(t[1], platform) and holds(t[2], platform)
    return holds(t[1], platform) or holds(t[2], platform)


def ops(t: Any) -> list[str]:
    return [t[0]] + [o for k in t[1:] if isinstance(k, tuple) for o in ops(k)]


def check(t: Any, text: str, v1: bool, wrap: bool, rng: random.Random, obs: Obs) -> None:
    from conda_recipe_manager.parser.enums import SchemaVersion
    from conda_recipe_manager.parser.platform_types import Platform
    from conda_recipe_manager.parser.selector_parser import SelectorParser
    from conda_recipe_manager.parser.selector_query import SelectorQuery

    schema = SchemaVersion.V1 if v1 else SchemaVersion.V0
    content = f"[{text}]" if wrap and not v1 else text
    obs.data(content=content, schema=int(schema))
    p = SelectorParser(content, schema)
    want = {x for x in ALL if holds(t, x)}
    got = {str(x) for x in p.get_selected_platforms()}
    obs.count("expressions")
    if got != want:
        raise Violation(
            f"{content!r} selects {sorted(got)}, expected {sorted(want)}", "platforms", extra=sorted(got - want), missing=sorted(want - got)
        )
    answers = p.get_selected_platforms()
    if rng.random() < 0.1:
        # What a caller does with an answer must not change later answers.
        answers.clear()
        obs.count("mutated_answers")
    for x in ALL:
        if p.does_selector_apply(SelectorQuery(platform=Platform(x))) is not (x in want):
            raise Violation(f"{content!r}: does_selector_apply({x}) is not {x in want}", "applies")
        obs.count("platform_decisions")
    if p.does_selector_apply(SelectorQuery()) is not True:
        raise Violation(f"{content!r} does not apply to a query without constraints", "no constraints")
    want_render = text if v1 else f"[{text.strip()}]"
    if p.render() != want_render:
        raise Violation(f"{content!r} is rendered as {p.render()!r}", "render")
    q = SelectorParser(p.render(), schema)
    if not (p == q) or {str(x) for x in q.get_selected_platforms()} != want:
        raise Violation(f"{content!r} and its rendered form differ", "render meaning")
    if p == SelectorParser(content, SchemaVersion.V0 if v1 else SchemaVersion.V1) or p == content:
        raise Violation(f"{content!r} equals something that is not the same selector", "equality")
    if p.is_modified():
        raise Violation(f"{content!r} is marked as modified", "modified")
    k = ops(t)
    if "(" in text:
        obs.count("parentheses")
    if "and" in k and "or" in k:
        obs.count("mixed_and_or")
    if "not not" in text.lower():
        obs.count("double_not")
    if "?" in k:
        obs.count("unknown_operands")
    if any(m in text for m in MULTI):
        obs.count("multi_word_operands")
    obs.seen("platform_sets", ",".join(sorted(want)))
    if 0 < len(want) < len(ALL):
        obs.distinct(content)
        obs.sample({"selector": content, "platforms": sorted(want)})


def check_equality(a: Any, b: Any, obs: Obs) -> None:
    """Selectors that select different platforms are never equal."""
    from conda_recipe_manager.parser.enums import SchemaVersion
    from conda_recipe_manager.parser.selector_parser import SelectorParser

    ta, tb = text_of(a, None), text_of(b, None)
    pa, pb = SelectorParser(f"[{ta}]", SchemaVersion.V0), SelectorParser(f"[{tb}]", SchemaVersion.V0)
    if pa == pb and {x for x in ALL if holds(a, x)} != {x for x in ALL if holds(b, x)}:
        raise Violation(f"{ta!r} == {tb!r}, but they select different platforms", "equality of different selectors")
    obs.count("equality_pairs")


def case(i: int, rng: random.Random, obs: Obs) -> None:
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 24])
    t = rand_tree(rng, n)
    text = text_of(t, rng)
    v1 = rng.random() < 0.3
    if not v1 and rng.random() < 0.2:
        text = " " * rng.randint(0, 2) + text + " " * rng.randint(0, 2)
    check(t, text, v1, rng.random() < 0.9, rng, obs)
    check_equality(t, rand_tree(rng, rng.randint(1, 4)), obs)


def fixed(obs: Obs) -> list[tuple[str, Callable[[Obs], None]]]:
    names = ["linux", "osx", "win", "arm64", "foo"]

    def leaf(n: str) -> Any:
        return ("?", n) if n == "foo" else ("v", n)

    def small(first: str, o: Obs) -> None:
        rng = random.Random(first)
        for a, b, c in itertools.product([first], names, names):
            for na, nb, nc, n_all in itertools.product([0, 1], repeat=4):
                x, y, z = (("not", leaf(k)) if m else leaf(k) for k, m in ((a, na), (b, nb), (c, nc)))
                for o1, o2 in itertools.product(["and", "or"], repeat=2):
                    for t in ((o1, x, (o2, y, z)), (o1, (o2, x, y), z)):
                        t2 = ("not", t) if n_all else t
                        check(t2, text_of(t2, None), False, True, rng, o)
                t2 = (o1, x, y)
                check(t2, text_of(t2, None), True, False, rng, o)

    def tables(o: Obs) -> None:
        from conda_recipe_manager.parser import platform_types as P

        rng = random.Random(1)
        for k in TABLE:
            check(("v", k), k, False, True, rng, o)
        for os_ in P.ALL_OPERATING_SYSTEMS:
            for f in (str(os_), f" {os_.upper()} ", os_):
                if {str(x) for x in P.get_platforms_by_os(f)} != set(TABLE[str(os_)]):
                    raise Violation(f"get_platforms_by_os({f!r}) is wrong", "tables")
                P.get_platforms_by_os(f).clear()
        for a in P.ALL_ARCHITECTURES:
            for f in (str(a), f"\t{a.upper()}", a):
                if {str(x) for x in P.get_platforms_by_arch(f)} != set(TABLE[str(a)]):
                    raise Violation(f"get_platforms_by_arch({f!r}) is wrong", "tables")
                P.get_platforms_by_arch(f).clear()
        for f in ("", "amiga", "linux-64", "x86_6"):
            if P.get_platforms_by_os(f) or P.get_platforms_by_arch(f):
                raise Violation(f"{f!r} selects platforms", "tables")
        if {str(x) for x in P.ALL_PLATFORMS} != set(ALL):
            raise Violation("the set of platforms is not the documented one", "tables")
        o.count("tables")

    return [(f"exhaustive {n}", lambda o, n=n: small(n, o)) for n in names] + [("tables", tables)]
