"""C26: license names are only ever corrected to valid SPDX identifiers, and exact names are never corrected to another license."""

from __future__ import annotations

import difflib
import json
import os
import random
import re
from typing import Any, Callable, Optional

from lib.core import Obs, REPO, Violation

PROP = "C26"
LEVEL = "exploration"
RULE = (
    "All identifiers and official names of the shipped SPDX table (fixed cases), compound expressions made of them, and random "
    "mutations of them (typos, case, spacing, dropped words, punctuation, unrelated text, very long text). The oracle is the "
    "JSON table itself, read by the check; for approximations, the similarity of the answer is compared with that of every "
    "known spelling. A case is non-trivial if the text is not a known spelling."
)
ANCHORS = ["conda_recipe_manager/licenses/spdx_utils.py"]
COUNTS = {"quick": 3000, "thorough": 60000}
REQUIRED = ["exact_ids", "exact_names", "compound", "approximated", "rejected", "closest_compared"]
ASSUMPTIONS = ["Approximation means the similarity ratio of difflib with its documented cut-off of 0.6, as the tests pin."]

_T: Optional[tuple[dict[str, set[str]], set[str]]] = None
PATCHES = {'BSD 2-CLAUSE "SIMPLIFIED"': "BSD-2-Clause", "UNLIMITED": "NOASSERTION"}


def table() -> tuple[dict[str, set[str]], set[str]]:
    """Spelling -> identifiers; the set of identifiers."""
    global _T  # pylint: disable=global-statement
    if _T is None:
        with open(os.path.join(REPO, "conda_recipe_manager/licenses/spdx_licenses.json"), encoding="utf-8") as f:
            data = json.load(f)["licenses"]
        t: dict[str, set[str]] = {}
        ids = {d["licenseId"] for d in data}
        for d in data:
            t.setdefault(d["name"], set()).add(d["licenseId"])
        for i in ids:
            t[i] = {i}
        _T = (t, ids)
    return _T


_U: Any = None


def utils() -> Any:
    global _U  # pylint: disable=global-statement
    from conda_recipe_manager.licenses.spdx_utils import SpdxUtils

    if _U is None:
        _U = SpdxUtils()
    return _U


def compound(text: str) -> bool:
    return "," in text or bool({"AND", "OR", "WITH"} & set(re.split(r"[\s()]+", text.strip().upper())))


def answer(text: str) -> Optional[str]:
    u = utils()
    got = u.find_closest_license_match(text)
    if got is not None and got not in table()[1] and got != "NOASSERTION":
        raise Violation(f"{text!r} is corrected to {got!r}, which is not an SPDX identifier", "not an id")
    if u.find_closest_license_match(text) != got:
        raise Violation(f"asking twice about {text!r} gives two answers", "not deterministic")
    return got


def mutate(rng: random.Random, s: str) -> str:
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.randrange(11)
        p = rng.randrange(len(s) + 1)
        if k == 0:
            s = s[:p] + s[p + 1 :]
        elif k == 1:
            s = s[:p] + rng.choice("abcdeXYZ0123456789 -._") + s[p:]
        elif k == 2:
            s = s.lower()
        elif k == 3:
            s = s.upper()
        elif k == 4:
            s = s.replace("-", " ", 1)
        elif k == 5:
            s = s.replace(" ", rng.choice(["_", "-", "  "]), 1)
        elif k == 6:
            s = " " * rng.randint(0, 2) + s + rng.choice([" ", "\n", "\t"])
        elif k == 7:
            s = s + rng.choice([" License", " license", "+", " v2", "-only", " (new)"])
        elif k == 8:
            w = s.split()
            if len(w) > 1:
                w.pop(rng.randrange(len(w)))
                s = " ".join(w)
        elif k == 9:
            s = s[::-1] if rng.random() < 0.3 else s
        else:
            s = rng.choice(["the ", "The ", "GNU ", ""]) + s
    return s


def check_closest(text: str, got: Optional[str], obs: Obs) -> None:
    t, _ = table()
    sm = difflib.SequenceMatcher()
    sm.set_seq2(text)
    best, ids = 0.0, set()
    for k, v in t.items():
        sm.set_seq1(k)
        if sm.real_quick_ratio() < max(best, 0.6) - 1e-9 or sm.quick_ratio() < max(best, 0.6) - 1e-9:
            continue
        r = sm.ratio()
        if r > best + 1e-12:
            best, ids = r, set(v)
        elif abs(r - best) <= 1e-12:
            ids |= v
    if best < 0.6:
        ids = set()
    if (got is None) != (not ids) or (got is not None and got not in ids):
        raise Violation(f"{text!r} is corrected to {got!r}, the closest spelling is that of {sorted(ids) or None} ({best:.3f})", "closest")
    obs.count("closest_compared")


def case(i: int, rng: random.Random, obs: Obs) -> None:
    t, ids = table()
    known = sorted(t)
    r = rng.random()
    if r < 0.25:
        a, b = rng.choice(sorted(ids)), rng.choice(sorted(ids))
        op = rng.choice(["AND", "OR", "WITH", "and", "or", "With"])
        text = rng.choice([f"{a} {op} {b}", f"({a} {op} {b}) AND {rng.choice(known)}", f"{a}, {b}", f"{a},{b}", f"{a} {op}  ({b} OR {a})", f" {a} {op} {b} "])
    elif r < 0.9:
        text = mutate(rng, rng.choice(known))
    else:
        text = rng.choice(["", " ", "\n", "foo", "proprietary", "see LICENSE file", "x" * rng.choice([50, 2000]), "MIT\0", "ünïcode lïcense", "Unlimited", " unlimited ",
                           'bsd 2-clause "simplified"', "Public Domain", "[]", "{{ license }}", "BSD", "GPL"])
    obs.data(text=text)
    got = answer(text)
    if text in t:
        if got not in t[text]:
            raise Violation(f"{text!r} is a known spelling of {sorted(t[text])}, not of {got!r}", "exact")
        return
    if compound(text):
        obs.count("compound")
        if got is not None:
            raise Violation(f"the compound license {text!r} is reduced to {got!r}", "compound")
    elif text.strip().upper() in PATCHES:
        if got != PATCHES[text.strip().upper()]:
            raise Violation(f"{text!r} is corrected to {got!r}", "alias")
    else:
        obs.count("approximated" if got else "rejected")
        plain = not re.search(r"(?i)(?<![a-z])(and|or|with)(?![a-z])", text)
        if plain and len(text) < 300 and rng.random() < (0.15 if obs.tier == "quick" else 0.3):
            check_closest(text, got, obs)
    obs.distinct(text)
    obs.sample({"text": text[:80], "answer": got}, 4)


def fixed(obs: Obs) -> list[tuple[str, Callable[[Obs], None]]]:
    def exact(o: Obs) -> None:
        t, ids = table()
        for i in sorted(ids):
            if answer(i) != i:
                raise Violation(f"the identifier {i!r} is corrected to {answer(i)!r}", "exact id")
            o.count("exact_ids")
        for n in sorted(t):
            if answer(n) not in t[n]:
                raise Violation(f"the official name {n!r} is corrected to {answer(n)!r}, expected {sorted(t[n])}", "exact name")
            o.count("exact_names")
        for k, v in PATCHES.items():
            for form in (k, k.lower(), f" {k} ", k.title()):
                if answer(form) != v:
                    raise Violation(f"{form!r} is corrected to {answer(form)!r}, expected {v}", "alias")

    def fresh(o: Obs) -> None:
        from conda_recipe_manager.licenses.spdx_utils import SpdxUtils

        a, b = SpdxUtils(), SpdxUtils()
        rng = random.Random(5)
        for n in rng.sample(sorted(table()[0]), 40):
            m = mutate(rng, n)
            if a.find_closest_license_match(m) != b.find_closest_license_match(m):
                raise Violation(f"two instances disagree about {m!r}", "instances")

    return [("exact spellings", exact), ("instances", fresh)]
