"""C07: build-configuration lookups return the first value whose selector applies to the target platform."""

from __future__ import annotations

import json
import random
from typing import Any, Callable

from checks import c06
from lib import recipes as R
from lib.core import REPO, Obs, Violation

PROP = "C07"
LEVEL = "exploration"
RULE = (
    "Generated build-configuration files (1-12 variables with 1-8 values each, selectors from random boolean expressions, "
    "comments, aligned columns, zip_keys, pin_run_as_build, scalars) are queried for every variable on every platform, "
    "without a platform, with and without a default. The reference takes the first value without selector or whose "
    "expression holds. A case is non-trivial if some variable has different answers on two platforms."
)
ANCHORS = ["conda_recipe_manager/parser/cbc_parser.py", "conda_recipe_manager/parser/selector_parser.py"]
COUNTS = {"quick": 4000, "thorough": 120000}
REQUIRED = ["answers", "no_value_raised", "no_value_default", "missing_raised", "missing_default", "falsy_defaults", "not_first_value", "real_files"]
ASSUMPTIONS = ["Values are scalars; unknown selector operands select no platform (as in C06)."]

VALUES = [("1.2.3", "1.2.3"), ("gcc", "gcc"), ("vs2019", "vs2019"), (3.9, "3.9"), ("3.10", "'3.10'"), ("3.10", '"3.10"'), (7, "7"), (0, "0"),
          (False, "false"), (True, "True"), ("a b", "a b"), ("", '""'), ("V=1", "V=1"), ("/opt/MacOSX10.10.sdk", "/opt/MacOSX10.10.sdk"),
          ("3.10.* *_cpython", "3.10.* *_cpython"), ("x # y", '"x # y"'), ("[osx]", '"[osx]"')]


def rand_file(rng: random.Random) -> tuple[str, dict[str, list[tuple[Any, Any]]]]:
    out: list[str] = []
    table: dict[str, list[tuple[Any, Any]]] = {}
    names: list[str] = []
    indent = rng.choice(["  ", "  ", "", "    "])
    for _ in range(rng.randint(1, 12)):
        name = rng.choice([R.word(rng), R.word(rng) + "_compiler", R.word(rng).upper(), "python", "numpy", "c_compiler_version", "zip", "zip_keys_x", "pin_run"])
        if name in names:
            continue
        names.append(name)
        kind = rng.random()
        if rng.random() < 0.2:
            out.append(f"# {R.sentence(rng)} [osx]")
        if kind < 0.05:
            out.append(f"{name}: {rng.choice(['3', 'text', 'true'])}  # [osx]")
        elif kind < 0.1:
            out += [f"{name}:", "  python:", "    min_pin: x.x", "    max_pin: x.x"]
        elif kind < 0.13 and "zip_keys" not in names:
            names.append("zip_keys")
            out += ["zip_keys:"] + rng.choice([["  -", "    - python", "    - numpy"], ["  - [python, numpy]"], ["  - python", "  - numpy"]])
        else:
            head = rng.choice(["", "", "", "  # [linux]", "    # [win or osx]"])
            out.append(f"{name}:{head}")
            entries: list[tuple[Any, Any]] = []
            for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 8])):
                v, t = rng.choice(VALUES)
                tree: Any = None
                com = ""
                r = rng.random()
                if r < 0.75:
                    tree = c06.rand_tree(rng, rng.choice([1, 1, 2, 3, 4]))
                    com = f"# [{c06.text_of(tree, rng)}]"
                    if rng.random() < 0.15:
                        com += " " + R.word(rng)
                elif r < 0.85:
                    com = f"# {R.word(rng)}"
                pad = " " * rng.choice([2, 2, 1, 10])
                out.append(f"{indent}- {t}{pad + com if com else ''}")
                entries.append((v, tree))
                if rng.random() < 0.05:
                    out.append(rng.choice(["", f"{indent}# [win]"]))
            table[name] = entries
        if rng.random() < 0.3:
            out.append("")
    return "\n".join(out) + "\n", table


NONE = object()


def expected(entries: list[tuple[Any, Any]], platform: Any) -> Any:
    for v, tree in entries:
        if tree is None or platform is None or c06.holds(tree, platform):
            return v
    return NONE


def queries(p: Any, table: dict[str, list[tuple[Any, Any]]], rng: random.Random, obs: Obs) -> bool:
    from conda_recipe_manager.parser.platform_types import Platform
    from conda_recipe_manager.parser.selector_query import SelectorQuery

    varied = False
    plan = [(n, x) for n in table for x in [None, *c06.ALL]]
    rng.shuffle(plan)  # answers must not depend on earlier queries
    answers: dict[str, set[str]] = {}
    for name, plat in plan:
        q = SelectorQuery() if plat is None else SelectorQuery(platform=Platform(plat))
        want = expected(table[name], plat)
        mode = rng.choice(["raise", "default"])
        default = rng.choice([None, "dflt", 0, False, ""])
        try:
            got = p.get_cbc_variable_value(name, q) if mode == "raise" else p.get_cbc_variable_value(name, q, default)
        except ValueError as e:
            if isinstance(e, KeyError) or mode == "default" or want is not NONE:
                raise Violation(f"{name} on {plat}: raised {type(e).__name__}: {e}; expected {want!r}", "refused") from e
            obs.count("no_value_raised")
            continue
        if want is NONE:
            if mode == "raise":
                raise Violation(f"{name} on {plat}: no value applies, got {got!r}", "value that does not apply")
            if got is not default and not (R.same(got, default)):
                raise Violation(f"{name} on {plat}: no value applies, got {got!r} instead of the default {default!r}", "default")
            obs.count("no_value_default")
            if not default:
                obs.count("falsy_defaults")
            continue
        if not R.same(got, want):
            raise Violation(f"{name} on {plat}: got {got!r}, expected {want!r}", "value", entries=[(v, t and c06.text_of(t, None)) for v, t in table[name]])
        obs.count("answers")
        answers.setdefault(name, set()).add(repr(got))
        if not R.same(want, table[name][0][0]):
            obs.count("not_first_value")
    varied = any(len(v) > 1 for v in answers.values())
    for missing in ("zip_keys", "nope", ""):
        if missing in table:
            continue
        try:
            got = p.get_cbc_variable_value(missing, SelectorQuery())
            raise Violation(f"unknown variable {missing!r}: got {got!r}", "unknown variable")
        except KeyError:
            obs.count("missing_raised")
        for default in (None, 5, ""):
            if not R.same(p.get_cbc_variable_value(missing, SelectorQuery(), default), default):
                raise Violation(f"unknown variable {missing!r}: the default {default!r} is not returned", "unknown variable default")
            obs.count("missing_default")
    return varied


def case(i: int, rng: random.Random, obs: Obs) -> None:
    from conda_recipe_manager.parser.cbc_parser import CbcParser

    text, table = rand_file(rng)
    obs.data(text=text)
    p = CbcParser(text)
    if p.list_cbc_variables() != list(table):
        raise Violation(f"variables are {p.list_cbc_variables()}, expected {list(table)}", "variables")
    for n in [*table, "zip_keys", "nope", ""]:
        if (n in p) is not (n in table):
            raise Violation(f"{n!r} in file is {n in p}", "contains")
    if 5 in p or None in p:
        raise Violation("a key that is not a string is in the file", "contains")
    before = p.render()
    if queries(p, table, rng, obs):
        obs.distinct(text)
        obs.sample(text[:400], 1)
    if p.is_modified() or p.render() != before:
        raise Violation("queries changed the file", "side effect")
    if not (p == CbcParser(text)):
        raise Violation("two parsers of the same file are not equal", "equality")


def fixed(obs: Obs) -> list[tuple[str, Callable[[Obs], None]]]:
    def real(o: Obs) -> None:
        """The shipped configuration file, read line by line."""
        import os
        import re

        import yaml

        from conda_recipe_manager.parser.cbc_parser import CbcParser
        from conda_recipe_manager.parser.platform_types import Platform
        from conda_recipe_manager.parser.selector_parser import SelectorParser
        from conda_recipe_manager.parser.enums import SchemaVersion
        from conda_recipe_manager.parser.selector_query import SelectorQuery

        d = os.path.join(REPO, "tests/test_aux_files/cbc_files")
        for f in sorted(os.listdir(d)):
            with open(os.path.join(d, f), encoding="utf-8") as fh:
                text = fh.read()
            p = CbcParser(text)
            data = yaml.safe_load(text)
            name = ""
            sels: dict[str, list[Any]] = {}
            for ln in text.split("\n"):
                m = re.match(r"([\w]+):", ln)
                if m:
                    name = m.group(1)
                m = re.match(r"\s*- \S.*?(?:#\s*(\[.*\]).*)?$", ln)
                if m:
                    sels.setdefault(name, []).append(m.group(1))
            for name, values in data.items():
                if not isinstance(values, list) or name == "zip_keys":
                    continue
                for plat in c06.ALL:
                    want = NONE
                    for v, s in zip(values, sels[name], strict=True):
                        if s is None or SelectorParser(s, SchemaVersion.V0).does_selector_apply(SelectorQuery(platform=Platform(plat))):
                            want = v
                            break
                    got = p.get_cbc_variable_value(name, SelectorQuery(platform=Platform(plat)), default="NO-VALUE")
                    if not R.same(got, "NO-VALUE" if want is NONE else want):
                        raise Violation(f"{f}: {name} on {plat}: got {got!r}, expected {want!r}", "real file")
            o.count("real_files")

    return [("shipped files", real)]
