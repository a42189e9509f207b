"""C05: variables resolve to their values, and edits to them are exact."""

from __future__ import annotations

import ast
import json
import random
import re
from typing import Any, Optional

from lib import recipes as R
from lib.core import Obs, Violation

PROP = "C05"
LEVEL = "exploration"
RULE = (
    "Random recipes (V0 and V1) are generated with a table of variables and with values that refer to them through every supported expression (plain, lower, upper, index, addition, concatenation), unsupported expressions and unknown "
    "names, in plain, quoted, block and one-line forms. The generator evaluates each expression; every value, read alone and as part of its parents, must be that, before and after random histories of variable edits. The variable table, "
    "references, and rendered text must agree with the model after every edit. A case is non-trivial if at least three values hold a resolved expression."
)
ANCHORS = ["conda_recipe_manager/parser/recipe_reader.py", "conda_recipe_manager/parser/recipe_parser.py", "conda_recipe_manager/parser/_types.py"]
COUNTS = {"quick": 2500, "thorough": 60000}
REQUIRED = ["v0", "other_notations", "unusual", "v1", "resolved", "unresolved", "mixed", "filters", "two_filters", "index", "add_numbers", "concat", "block_scalars", "one_line", "quoted", "untouched_values", "references", "set_new", "list_variables", "set_existing", "deleted", "deleted_absent",
            "patched_context", "reparsed", "number_like_versions", "whitespace_control", "strings_with_quotes"]
ASSUMPTIONS = [
    "Variables are set to literals; variables set to expressions are known findings (C02-set-expression, C05-nested-variables).",
    "Substituted text is read as YAML (as the tests pin), as long as that does not change it. Concatenated strings may be quoted inside of other text, as the tests pin.",
    "An index out of range or of a blank, and operands of different types or that are not variables, are not specified.",
]

NAMES = ["name", "version", "major", "build_number", "pkg_name", "ver", "v", "names", "sha256_hash", "flag"]


class Expr:
    """An expression with a value for any table of variables."""

    def __init__(self, text: str, names: list[str], fn: Any) -> None:
        self.text, self.names, self.fn = text, names, fn

    def value(self, tbl: dict[str, Any]) -> Any:
        """The value or None if it can't be resolved."""
        try:
            return self.fn(tbl)
        except (KeyError, Odd):
            return None


class Odd(Exception):
    """Not supported: must stay as it is."""


class Unspecified(Exception):
    pass


class Concat(str):
    """Concatenated strings, which stay strings."""


def expr(rng: random.Random, tbl: dict[str, Any], obs: Obs) -> Expr:
    n = rng.choice(list(tbl) or ["missing"])
    sp = rng.choice([" ", " ", " ", ""])

    def s(t: dict[str, Any], k: str) -> str:
        return str(t[k])

    r = rng.random()
    if r < 0.35:
        return Expr(f"{sp}{n}{sp}", [n], lambda t: t[n])
    if r < 0.5:
        f = rng.choice(["lower", "upper"])
        bar = rng.choice(["|", " | ", "| ", " |"])
        if rng.random() < 0.1:
            first = "upper" if f == "lower" else "lower"
            obs.count("two_filters")
            return Expr(f"{sp}{n}{bar}{first}{bar}{f}{sp}", [n], lambda t: getattr(getattr(s(t, n), first)(), f)())
        return Expr(f"{sp}{n}{bar}{f}{sp}", [n], lambda t: getattr(s(t, n), f)())
    if r < 0.58:
        i = rng.choice([0, 0, 1, 2, 3, 10, 11])

        def idx(t: dict[str, Any]) -> str:
            if not isinstance(t[n], str) or len(t[n]) <= i or t[n][i] == " ":
                raise Unspecified()
            return str(t[n])[i]

        return Expr(f"{sp}{n}[{i}]{sp}", [n], idx)
    if r < 0.78:
        m = rng.choice(list(tbl) or ["missing"])
        k = rng.randint(0, 200)
        lit = rng.choice([".1", "post1", "x", "2", "10"])
        q = rng.choice(["'", '"'])
        ops: list[tuple[str, list[str], Any]] = [
            (f"{n} + {k}", [n], lambda t: add(t[n], k)), (f"{k} + {n}", [n], lambda t: add(k, t[n])), (f"{n} + {m}", [n, m], lambda t: add(t[n], t[m])),
            (f"{n} + {q}{lit}{q}", [n], lambda t: add(t[n], lit)), (f"{q}{lit}{q}+{n}", [n], lambda t: add(lit, t[n])),
        ]
        a, b, c = rng.choice(ops)

        def known(t: dict[str, Any]) -> Any:
            # Unknown names are taken for strings
            if not all(x in t for x in b):
                raise Unspecified()
            return c(t)

        return Expr(f"{sp}{a}{sp}", b, known)
    other: list[tuple[str, list[str]]] = [
        (" unknown_var ", []), (" compiler('c') ", []), (" stdlib(\"c\") ", []), (f" pin_subpackage('{n}', max_pin='x.x') ", []), (f" {n}_other ", []), (f" x{n} ", []), (f" unknown|lower ", []),
        (f" {n} | replace('-', '_') ", [n]), (f" {n} + 100 if win else 5 ", [n]), (f" {n} + '_' + {n} ", [n]), (f" pin_compatible(\"{n}\") ", []), (f" {n}.split('.') ", [n]), (f" {n} ~ '-x' ", [n]), (f" other.{n} ", []),
        (f" compiler({n}) ", [n]), (f" ({n} + 1) ", [n]), (f" {n}[:2] ", [n]), (f" {n}.split('.')[:2] ", [n]), (f" {n} if {n} >= '3' else 'a/b' ", [n]), (f" {n} * 2 ", [n]), (" environ.get('A:B') ", []), (f" {n}[-1] ", [n]), (f" {n} == 'a' ", [n]), (f" {n} | lower + 'x' ", [n]), (f" 'x' + {n}|upper ", [n]),
        (f" {n}[0] + 'x' ", [n]), (f" 'x' + {n}[1] ", [n]), (f" {n}[0] + {n} ", [n]), (f" {n}[0] ~ 'x' ", [n]), (f" {n}[0][1] ", [n]), (f" {n}[0] if {n} else 'a' ", [n]),
    ]
    t, names = rng.choice(other)

    def odd(tbl2: dict[str, Any]) -> Any:
        if t.strip() in tbl2:
            return tbl2[t.strip()]
        raise Odd()

    return Expr(t, names, odd)


def add(a: Any, b: Any) -> Any:
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) != isinstance(b, str):
        raise Unspecified()
    if isinstance(a, str) and (a == "" or b == ""):
        raise Unspecified()
    return Concat(a + b) if isinstance(a, str) else a + b


def rand_value(rng: random.Random, v1: bool) -> Any:
    r = rng.random()
    if r < 0.45:
        return rng.choice([R.word(rng), R.version(rng) + ".1", "1.10", "3.0", "10", "Mixed-Case", "x-y_z", "2024.01.01", "0012", "1e3", "1_000", "v1.2rc1", "conda-recipe-manager", R.word(rng) + "-" + R.word(rng)])
    if r < 0.6:
        return rng.choice(["it's", 'say "hi" now', "back\\slash", "x y", "a: b", "a # b", "ü", "Straße", "ÄÖÜ-ﬁ", "ſʼn", "İstanbul", "ΣΑΣ", "100%", "a=b", "semi;colon", "C++"])
    if r < 0.8:
        return rng.choice([0, 1, 7, 100, 2024])
    if r < 0.9:
        return rng.choice([1.5, 0.25, 3.1])
    return rng.choice([True, False])


class Tpl:
    def __init__(self, parts: list[Any], v1: bool) -> None:
        self.parts, self.v1 = parts, v1

    def raw(self) -> str:
        d = "$" if self.v1 else ""
        return "".join(p if isinstance(p, str) else f"{d}{{{{{p.text}}}}}" for p in self.parts)

    def names(self) -> set[str]:
        return {n for p in self.parts if isinstance(p, Expr) for n in p.names}

    def accepted(self, tbl: dict[str, Any], whole: bool = True) -> list[Any]:
        """The values a reader may see. Raises Unspecified."""
        d = "$" if self.v1 else ""
        vals = [p if isinstance(p, str) else p.value(tbl) for p in self.parts]
        if all(v is None for p, v in zip(self.parts, vals) if isinstance(p, Expr)):
            return [self.raw()]
        if len(self.parts) == 1 and whole:
            v = vals[0]
            if isinstance(v, Concat):
                return [str(v)]
            if not isinstance(v, str):
                return [v]
        out = []
        for quote in (False, True):
            text = ""
            for p, v in zip(self.parts, vals):
                if isinstance(v, bool):
                    raise Unspecified()
                text += p if isinstance(p, str) else f"{d}{{{{{p.text}}}}}" if v is None else f'"{v}"' if quote and isinstance(v, Concat) else str(v)
            out.append(text)
            if whole and "{{" not in text:
                import yaml

                try:
                    y = yaml.safe_load(text)
                except (yaml.YAMLError, ValueError):
                    continue
                if isinstance(y, bool) or y is None or isinstance(y, (int, float)) and str(y) == text:
                    out.append(y)
                if isinstance(y, str) and text[:1] in "'\"" and quote:
                    raise Unspecified()
        return out


def norm(v: Any) -> Any:
    if isinstance(v, str):
        return v.replace("${{", "{{").rstrip("\n")
    if isinstance(v, list):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    return v


LITS = ["v", "lib-", "https://example.org/", ".tar.gz", "/", " >=1", "pre ", " post", "_", "-", "x.y "]


def tpl(rng: random.Random, tbl: dict[str, Any], v1: bool, obs: Obs) -> Tpl:
    if rng.random() < 0.4:
        return Tpl([expr(rng, tbl, obs)], v1)
    parts: list[Any] = []
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.7:
            parts.append(rng.choice(LITS if parts else [x for x in LITS if x[0] not in " -"]))
        parts.append(expr(rng, tbl, obs))
    if rng.random() < 0.3:
        parts.append(rng.choice(LITS))
    if not isinstance(parts[0], str) and rng.random() < 0.5:
        parts.insert(0, "p")
    parts[-1] = parts[-1].rstrip() if isinstance(parts[-1], str) else parts[-1]
    return Tpl(parts, v1)


class Slot:
    """A place in the recipe that holds templates."""

    def __init__(self, kind: str, tpls: list[Any], variant: str = "") -> None:
        self.kind, self.tpls, self.variant = kind, tpls, variant

    def names(self) -> set[str]:
        return {n for t in self.tpls if isinstance(t, Tpl) for n in t.names()}

    def accepted(self, tbl: dict[str, Any]) -> list[Any]:
        if self.kind == "scalar":
            return [norm(x) for x in self.tpls[0].accepted(tbl)]
        if self.kind == "flow":
            alts: list[Any] = [[]]
            for t in self.tpls:
                alts = [a + [norm(x)] for a in alts for x in (t.accepted(tbl) if isinstance(t, Tpl) else [t])][:64]
            return alts
        alts = [[]]
        for t in self.tpls:
            alts = [a + [x] for a in alts for x in (dict.fromkeys(t.accepted(tbl, False)) if isinstance(t, Tpl) else [t])][:64]
        return [norm(R.block_value(R.Multi(self.variant, a))) for a in alts]


def quote(rng: random.Random, s: str, force: bool, obs: Optional[Obs]) -> str:
    if not force and R._plain_ok(s.replace("{{", "").replace("}}", "").replace("$", "")) and s[0] not in "'\"" and " #" not in s and rng.random() < 0.6:
        return s
    if obs is not None:
        obs.count("quoted")
    return json.dumps(s, ensure_ascii=False) if "'" in s or ("\"" not in s and rng.random() < 0.5) else f"'{s}'"


def unusual(rng: random.Random, obs: Obs) -> None:
    """Variables that hold text with special characters, which no value refers to."""
    from conda_recipe_manager.parser.recipe_parser import RecipeParser

    v1 = rng.random() < 0.5
    text = "schema_version: 1\n\ncontext:\n  a: x\n\nabout:\n  home: x\n" if v1 else '{% set a = "x" %}\n\nabout:\n  home: x\n'
    p = RecipeParser(text)
    want: dict[str, Any] = {"a": "x"}
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(["a", "zz", "b_1"])
        pieces = [rng.choice(["x", "word", "\n", "\t", '"', "'", "\\", "{{ a }}", "# x", " ", ":", "- ", "[", "}", "\\n", "é", "😀", "|", "%", "&", "!", ","]) for _ in range(rng.randint(1, 6))]
        v = "".join(x for x in pieces if not v1 or x != "|")
        if v1 and "\n" in v:
            v = v.replace("\n", " ")  # these are written as block scalars, whose last newline is not kept
        v = v.replace("%}", "}")  # ends the statement of a V0 recipe
        if "{{" in v:
            v = re.sub(r"['\"\\\\]", "", v)  # can't be quoted: escapes are not possible in substitutions
        want[k] = v
        p.set_variable(k, v)
    obs.data(text=text, variables=want, rendered=p.render())
    obs.count("unusual")
    again = RecipeParser(p.render())
    for q in (p, again):
        got = {k: q.get_variable(k) for k in q.list_variables()}
        if not R.same(got, want):
            raise Violation(f"the variables are {got}, expected {want}", "unusual variables")
        if q.get_value("/about/home") != "x" or q.render() != p.render():
            raise Violation("setting variables changes the recipe", "unusual variables: rest")


def case(i: int, rng: random.Random, obs: Obs) -> None:
    from conda_recipe_manager.parser.recipe_parser import RecipeParser
    from conda_recipe_manager.parser.recipe_reader import RecipeReader

    if rng.random() < 0.04:
        unusual(rng, obs)
        return
    v1 = rng.random() < 0.4
    obs.count("v1" if v1 else "v0")
    tbl = {n: rand_value(rng, v1) for n in rng.sample(NAMES, rng.randint(0, 6))}
    # The document
    doc = R.rand_doc(rng, depth=3, com=0.1, schema=int(v1), variables=False)
    doc.root.entries = [e for e in doc.root.entries if not (isinstance(e, R.Entry) and e.key in ("context",))]
    plant(doc.root, rng, tbl, v1, obs)
    slots: dict[str, Slot] = {}
    for p, v, _ in R.walk(doc.root):
        if hasattr(v, "slot"):
            slots[p] = v.slot
    if v1 and rng.random() < 0.15:
        tbl["listed"] = [R.word(rng), *rng.sample(["1.10", 3, True, "x y"], rng.randint(0, 2))]
        obs.count("list_variables")
    if v1 and tbl:
        doc.root.entries.insert(1, R.Entry("context", R.Map([R.Entry(k, R.Seq([R.Sc(x, ctx_text(rng, x)) for x in v]) if isinstance(v, list) else R.Sc(v, ctx_text(rng, v))) for k, v in tbl.items()])))
    head = "" if v1 else "".join(set_line(rng, k, v, obs) + rng.choice(["\n", "\n", "\n\n", " \n"]) for k, v in tbl.items())
    text = head + ("\n" if head and rng.random() < 0.7 else "") + R.emit(doc)
    obs.data(text=text, variables=tbl)
    p = RecipeParser(text)
    if rng.random() < 0.3:
        verify(RecipeReader(text), doc, slots, tbl, v1, rng, obs)
    resolved = verify(p, doc, slots, tbl, v1, rng, obs)
    history: list[Any] = []
    for _ in range(rng.choice([0, 1, 2, 4, 7])):
        before = outside(p.render(), v1)
        op = rng.choice(["set", "set", "new", "del", "del_absent", "patch"])
        was = dict(tbl)
        if op == "set" and tbl:
            k = rng.choice(list(tbl))
            v = rand_value(rng, v1)
            history.append((op, k, v))
            obs.data(text=text, variables=tbl, history=history)
            p.set_variable(k, v)
            tbl[k] = v
            obs.count("set_existing")
        elif op == "new":
            k = rng.choice(["new_var", "zz", "soname", rng.choice(NAMES)])
            v = rand_value(rng, v1)
            history.append((op, k, v))
            obs.data(text=text, variables=tbl, history=history)
            p.set_variable(k, v)
            tbl[k] = v
            obs.count("set_new")
        elif op == "del" and tbl:
            k = rng.choice(list(tbl))
            history.append((op, k))
            obs.data(text=text, variables=tbl, history=history)
            p.del_variable(k)
            del tbl[k]
            obs.count("deleted")
        elif op == "patch" and v1 and tbl:
            k = rng.choice(list(tbl))
            v = rand_value(rng, v1)
            kind = rng.choice(["replace", "add", "remove"])
            if kind == "add":
                k = rng.choice([k, "patched"])
            d: dict[str, Any] = {"op": kind, "path": f"/context/{k}"}
            if kind != "remove":
                d["value"] = v
            history.append(d)
            obs.data(text=text, variables=tbl, history=history)
            if not p.patch(d):
                raise Violation(f"{d} is refused", "patch")
            if kind == "remove":
                del tbl[k]
            else:
                tbl[k] = v
            obs.count("patched_context")
        else:
            history.append(("del_absent",))
            obs.data(text=text, variables=tbl, history=history)
            p.del_variable(rng.choice(["absent", "", "nam", "NAME"]))
            obs.count("deleted_absent")
        if not p.is_modified() and was != tbl:
            raise Violation(f"{history[-1]}: the recipe is not marked as modified", "modified")
        after = outside(p.render(), v1)
        if before != after:
            raise Violation(f"{history[-1]} changes more than the variable: {R.diff_obj(before, after)}", "other text")
        verify(p, doc, slots, tbl, v1, rng, obs)
    if resolved >= 3:
        obs.distinct(text + repr(history))
        obs.sample({"variables": {k: str(v) for k, v in tbl.items()}, "history": history[:3]}, 2)


def set_line(rng: random.Random, k: str, v: Any, obs: Obs) -> str:
    if isinstance(v, str):
        if '"' in v:
            t = rng.choice([f"'{v}'", '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'])
            obs.count("strings_with_quotes")
        elif "'" in v or rng.random() < 0.7:
            t = '"' + v.replace("\\", "\\\\") + '"'
        else:
            t = "'" + v.replace("\\", "\\\\") + "'"
    else:
        t = str(v)
    sp = rng.choice([" ", " ", " ", ""])
    a, b = rng.choice([("{%", "%}")] * 6 + [("{%-", "%}"), ("{%-", "-%}"), ("{%", "-%}")])
    if "-" in a + b:
        obs.count("whitespace_control")
    return f"{a} set {k}{sp}={sp}{t} {b}"


def ctx_text(rng: random.Random, v: Any) -> str:
    if not isinstance(v, str):
        return json.dumps(v)
    return v if R._plain_ok(v) and rng.random() < 0.6 else json.dumps(v, ensure_ascii=False)


def plant(root: R.Map, rng: random.Random, tbl: dict[str, Any], v1: bool, obs: Obs) -> None:
    """Puts templates into the document."""

    def make() -> Any:
        r = rng.random()
        c = R.comment(rng, 0.05, 0.05)
        if r < 0.7:
            t = tpl(rng, tbl, v1, obs)
            raw = t.raw()
            o: Any = R.Sc(raw, quote(rng, raw, False, obs), c)
            o.slot = Slot("scalar", [t])
        elif r < 0.85:
            ts: list[Any] = [tpl(rng, tbl, v1, obs) if rng.random() < 0.6 else R.sentence(rng) for _ in range(rng.randint(1, 3))]
            raws = [t.raw() if isinstance(t, Tpl) else t for t in ts]
            variant = rng.choice(["|", "|", ">", "|-", ">-"])
            if any(x != x.strip() or "[" in x for x in raws):
                return make()
            o = R.Multi(variant, raws)
            o.slot = Slot("block", ts, variant)
            obs.count("block_scalars")
        else:
            ts = [tpl(rng, tbl, v1, obs) if rng.random() < 0.6 else R.word(rng) for _ in range(rng.randint(1, 3))]
            raws = [t.raw() if isinstance(t, Tpl) else t for t in ts]
            o = R.Sc(raws, "[" + ", ".join(quote(rng, x, True, None) for x in raws) + "]", c)
            o.slot = Slot("flow", ts)
            obs.count("one_line")
        return o

    def go(v: Any) -> None:
        if isinstance(v, R.Map):
            for e in v.entries:
                if isinstance(e, R.Entry):
                    if isinstance(e.value, (R.Sc, R.Multi)) and e.key != "schema_version" and rng.random() < 0.45:
                        e.value = make()
                    else:
                        go(e.value)
        elif isinstance(v, R.Seq):
            for k, it in enumerate(v.items):
                if isinstance(it, R.Sc) and rng.random() < 0.45:
                    v.items[k] = make()
                else:
                    go(it)

    go(root)


def outside(text: str, v1: bool) -> Any:
    """Everything but the variables."""
    if v1:
        s = R.sections(text)
        s.pop("context", None)
        return s
    return "\n".join(ln for ln in text.split("\n") if not re.match(r"\{%-? *set ", ln)).lstrip("\n")


def in_text(text: str, v1: bool) -> dict[str, Any]:
    """The variables that a rendered recipe sets."""
    if v1:
        import yaml

        got = R.yaml_oracle(text).get("context")
        return got if isinstance(got, dict) else {}
    out = {}
    for ln in text.split("\n"):
        m = re.match(r"\{% set (\w+) = (.*) %\}$", ln)
        if m:
            out[m.group(1)] = ast.literal_eval(m.group(2))
    return out


def verify(p: Any, doc: R.Doc, slots: dict[str, Slot], tbl: dict[str, Any], v1: bool, rng: random.Random, obs: Obs) -> int:
    from conda_recipe_manager.parser.recipe_reader import RecipeReader

    # The table
    if p.list_variables() != list(tbl):
        raise Violation(f"list_variables() is {p.list_variables()}, expected {list(tbl)}", "list")
    for k, v in tbl.items():
        if not p.contains_variable(k) or not R.same(p.get_variable(k), v):
            raise Violation(f"get_variable({k!r}) is {p.get_variable(k, None)!r}, expected {v!r}", "variable")
    for k in ("absent", "", "nam", "Name", "schema_version"):
        if p.contains_variable(k) or p.get_variable(k, "dflt") != "dflt" or p.get_variable(k, None) is not None or p.get_variable_references(k) != []:
            raise Violation(f"{k!r} is reported as a variable", "absent")
        try:
            p.get_variable(k)
        except KeyError:
            continue
        raise Violation(f"get_variable({k!r}) gives a value", "absent")
    text = p.render()
    if not R.same(in_text(text, v1), tbl) or list(in_text(text, v1)) != list(tbl):
        raise Violation(f"the rendered recipe sets {in_text(text, v1)}, expected {tbl}", "rendered variables")
    if rng.random() < 0.3:
        q = RecipeReader(text)
        if not R.same({k: q.get_variable(k) for k in q.list_variables()}, tbl):
            raise Violation(f"the rendered recipe reads back with {({k: q.get_variable(k) for k in q.list_variables()})}, expected {tbl}", "reparsed")
        obs.count("reparsed")
        if not v1:
            # The same statements, written in other ways
            forms = ["{{%- set {k} = {v} -%}}", "{{%set {k}={v}%}}", "{{% if win %}}{{% set {k} = {v} %}}{{% endif %}}", "{{%- set {k}= {v} %}}", "  {{% set {k} ={v}  %}}  ", "{{% set {k} = {v} %}}"]
            varied = re.sub(r"(?m)^\{% set (\w+) = (.*) %\}$", lambda m: rng.choice(forms).format(k=m.group(1), v=m.group(2)), text)
            q = RecipeReader(varied)
            if not R.same({k: q.get_variable(k) for k in q.list_variables()}, tbl) or q.render() != text:
                raise Violation(f"written as {varied[:400]!r}, the variables are {({k: q.get_variable(k) for k in q.list_variables()})}, expected {tbl}", "other notations")
            obs.count("other_notations")
    # Values
    resolved = 0
    obj = p.render_to_object(replace_variables=True)
    plain = p.render_to_object()
    for path, v, _ in R.walk(doc.root):
        if path.startswith("/context"):
            continue
        if v is None or isinstance(v, (R.Map, R.Seq)):
            if v is not None and rng.random() < 0.2 and norm(p.get_value(path, sub_vars=True)) != norm(R.get_path(obj, path)):
                raise Violation(f"get_value({path!r}, sub_vars=True) is {p.get_value(path, sub_vars=True)!r}, render_to_object() has {R.get_path(obj, path)!r}", "parents")
            continue
        got = p.get_value(path, sub_vars=True)
        if not R.same(norm(got), norm(R.get_path(obj, path))):
            raise Violation(f"{path}: get_value() gives {got!r}, render_to_object() {R.get_path(obj, path)!r}", "two readings")
        raw = R.strip_nl(R.to_obj(v))
        if not R.same(R.strip_nl(p.get_value(path)), raw) or not R.same(R.strip_nl(R.get_path(plain, path)), raw):
            raise Violation(f"{path}: without substitution the value is {p.get_value(path)!r}, expected {raw!r}", "raw value")
        slot = slots.get(path)
        if slot is None:
            if not R.same(norm(got), norm(raw)):
                raise Violation(f"{path}: a value without variables {raw!r} reads as {got!r}", "untouched")
            obs.count("untouched_values")
            continue
        try:
            ok = slot.accepted(tbl)
        except Unspecified:
            continue
        if not any(R.same(norm(got), a) for a in ok):
            raise Violation(f"{path}: {raw!r} reads as {got!r}, expected {ok[0]!r}", f"value {slot.kind}")
        count(slot, tbl, obs)
        if any(isinstance(x, Expr) and x.value(tbl) is not None for t in slot.tpls if isinstance(t, Tpl) for x in t.parts):
            resolved += 1
    # References
    for k in tbl:
        want = [path for path, v, _ in R.walk(doc.root) if path in slots and k in slots[path].names()]
        got_refs = p.get_variable_references(k)
        if got_refs != want:
            raise Violation(f"get_variable_references({k!r}) is {got_refs}, expected {want}", "references")
        obs.count("references", len(want))
    if p.render() != text:
        raise Violation("reading changes the recipe", "reading")
    return resolved


def count(slot: Slot, tbl: dict[str, Any], obs: Obs) -> None:
    for t in slot.tpls:
        if not isinstance(t, Tpl):
            continue
        ex = [x for x in t.parts if isinstance(x, Expr)]
        res = [x for x in ex if x.value(tbl) is not None]
        obs.count("resolved", len(res))
        obs.count("unresolved", len(ex) - len(res))
        if 0 < len(res) < len(ex):
            obs.count("mixed")
        for x in res:
            if "|" in x.text:
                obs.count("filters")
            if "[" in x.text:
                obs.count("index")
            v = x.value(tbl)
            if "+" in x.text:
                obs.count("concat" if isinstance(v, Concat) else "add_numbers")
            if len(t.parts) == 1 and isinstance(v, str) and v in ("1.10", "10", "3.0", "0012", "1e3", "1_000"):
                obs.count("number_like_versions")


def findings() -> list[tuple[str, Any]]:
    return [("C05-nested-variables", nested)]


def nested() -> Optional[str]:
    from conda_recipe_manager.parser.recipe_reader import RecipeReader

    r = RecipeReader("schema_version: 1\n\ncontext:\n  name: foo\n  url: https://${{ name }}.org\n\nabout:\n  homepage: ${{ url }}\n")
    got = r.get_value("/about/homepage", sub_vars=True)
    return None if got == "https://foo.org" else f"a variable that refers to another variable reads as {got!r}"
