"""Recipes with requirement sections whose every dependency is known to the generator (used by C08, C09 and C21)."""

from __future__ import annotations

import random
import re
from dataclasses import dataclass, field
from typing import Any, Optional

from lib import recipes as R

SECTIONS = {"build": "BUILD", "host": "HOST", "run": "RUN", "run_constrained": "RUN_CONSTRAINTS", "run_constraints": "RUN_CONSTRAINTS", "run_exports": "RUN_EXPORTS", "requires": "TESTS"}


@dataclass
class Dep:
    path: str
    section: str
    text: str  # with the known variables resolved
    selector: Optional[str] = None  # V0: with brackets
    negated: bool = False  # V1: in the `else` branch of `selector`


@dataclass
class Package:
    name: Optional[str]
    path: str
    deps: list[Dep] = field(default_factory=list)
    nulls: set[str] = field(default_factory=set)  # members without a value


@dataclass
class Model:
    doc: R.Doc
    text: str
    packages: list[Package]
    multi: bool
    v1: bool
    root_name: Optional[str]

    def expected(self) -> dict[str, list[tuple[str, Dep]]]:
        """Package -> [(required by, dependency)], the root's dependencies last."""
        out = {p.name: [(p.name, d) for d in p.deps] for p in self.packages}
        if len(self.packages) > 1:
            root = self.packages[0]
            for p in self.packages[1:]:
                out[p.name] += [(p.name, d) for d in root.deps]
        return out  # type: ignore[return-value]


def resolve(text: str, variables: dict[str, Any], v1: bool) -> str:
    """Resolves plain references and `lower`/`upper` filters."""

    def sub(m: re.Match[str]) -> str:
        name, _, fn = (x.strip() for x in m.group(1).partition("|"))
        if name not in variables:
            return m.group(0)
        v = str(variables[name])
        return {"": v, "lower": v.lower(), "upper": v.upper()}.get(fn, m.group(0))

    return re.sub(r"\$\{\{(.*?)\}\}" if v1 else r"\{\{(.*?)\}\}", sub, text)


def normal(text: str) -> str:
    """The code writes unresolved V0 expressions the V1 way."""
    return text.replace("${{", "{{")


def dep_text(rng: random.Random, variables: dict[str, Any], v1: bool, plain: bool = False) -> str:
    d = "$" if v1 else ""
    r = rng.random()
    if plain or r < 0.7:
        return R.dep_spec(rng)
    n = rng.choice(R.PKGS)
    opts = [
        f"{d}{{{{ compiler('{rng.choice(['c', 'cxx', 'rust'])}') }}}}", f"{d}{{{{ stdlib(\"c\") }}}}", f"{d}{{{{ pin_compatible('{n}') }}}}", f"{d}{{{{ pin_subpackage('{n}', max_pin='x.x') }}}}",
        f"{n} {d}{{{{ unknown }}}}", f"{n} =={d}{{{{ version }}}}", f"{d}{{{{ name }}}}-core", f"{d}{{{{ name|lower }}}} >={d}{{{{ version }}}}", f"{n} >={d}{{{{ version }}}},<{d}{{{{ unknown }}}}", f"lib{d}{{{{ name | lower }}}}-dev",
        f"{n} >=", f"{n} [broken", f"conda-forge::{n} >=1.2", f"{n}[version='>=1.0']", f"{n} 1.* py_0", f"{n} >=1.2|<0.5", f"{n}.ext", f"{n.capitalize()} >=1", f"{n}-{d}{{{{ major }}}}",
        f"{n} =1.2=h123_0", f"__glibc >=2.17", f"{n} >={d}{{{{ version[:3] }}}}", f"{n} {d}{{{{ version.split('.')[:2] | join('.') }}}}.*", f"{n} =={d}{{{{ a / b }}}}",
    ]
    return rng.choice(opts)


def scalar(rng: random.Random, text: str, comment: str) -> R.Sc:
    import json

    if not R._plain_ok(text) and "{{" not in text:
        return R.Sc(text, json.dumps(text), comment)
    if text.startswith(("{{", "${{")) and rng.random() < 0.5 or rng.random() < 0.08:
        q = "'" if "'" not in text else '"'
        if q not in text:
            return R.Sc(text, f"{q}{text}{q}", comment)
    return R.Sc(text, text, comment)


def section(rng: random.Random, m: Model, pkg: Package, base: str, name: str, com: float, variables: dict[str, Any], plain: bool, n: int = -1) -> Any:
    nulls = not plain and not m.v1
    items: list[Any] = []
    i = 0
    kind = SECTIONS.get(name)
    used: set[str] = set()
    for _ in range(n if n >= 0 else rng.choice([1, 1, 2, 3, 4, 6])):
        if rng.random() < com * 0.4:
            items.append(R.Cm(rng.choice(R.COMMENTS + ["# - commented-out >=1.0", "# - {{ compiler('c') }}  # [osx]"])))
        path = f"{base}/{name}/{i}"
        if m.v1 and rng.random() < 0.15 and not plain:
            cond = rng.choice(["unix", "win", "osx", "not win", "linux and aarch64", "linux or osx"])
            es: list[Any] = [R.Entry("if", R.Sc(cond, cond))]
            for br in ["then"] + (["else"] if rng.random() < 0.5 else []):
                texts = [dep_text(rng, variables, True) for _ in range(rng.choice([1, 1, 2]))]
                as_list = len(texts) > 1 or rng.random() < 0.4
                if as_list:
                    es.append(R.Entry(br, R.Seq([scalar(rng, t, "") for t in texts])))
                else:
                    es.append(R.Entry(br, scalar(rng, texts[0], "")))
                for k, t in enumerate(texts):
                    if kind:
                        pkg.deps.append(Dep(f"{path}/{br}" + (f"/{k}" if as_list else ""), kind, resolve(t, variables, True), cond, br == "else"))
            items.append(R.Map(es))
            i += 1
            continue
        if nulls and rng.random() < 0.05:
            # A member without a value is no dependency, but has a position
            items.append(R.Sc(None, rng.choice(["", "null"])))
            pkg.nulls.add(path)
            i += 1
            continue
        t = dep_text(rng, variables, m.v1, plain)
        if plain:
            nm = t.split(" ")[0]
            if nm in used:
                continue
            used.add(nm)
        c = R.comment(rng, com, com * 0.4)
        if m.v1 and R.selector_of(c):
            c = rng.choice(["", "# remark"])
        items.append(scalar(rng, t, c))
        if kind:
            pkg.deps.append(Dep(path, kind, resolve(t, variables, m.v1), R.selector_of(c)))
        i += 1
    if not items:
        return None
    return R.Seq(items)


def requirements(rng: random.Random, m: Model, pkg: Package, base: str, com: float, variables: dict[str, Any], plain: bool) -> Any:
    names = ["build", "host", "run", "run_constraints" if m.v1 else "run_constrained"]
    names = [n for n in names if rng.random() < 0.6]
    if not plain:
        if rng.random() < 0.1:
            names.append("run_exports")
        if rng.random() < 0.1:
            names.append(rng.choice(["ignored", "unknown_section", "ignore_run_exports"]))
        if rng.random() < 0.2:
            rng.shuffle(names)
    es: list[Any] = []
    for n in names:
        if rng.random() < com * 0.2:
            es.append(R.Cm(rng.choice(R.COMMENTS)))
        r = rng.random()
        kind = SECTIONS.get(n)
        if n == "run_exports" and m.v1 and rng.random() < 0.6:
            subs: list[Any] = []
            for s in rng.sample(["strong", "weak", "noarch"], rng.randint(1, 2)):
                subs.append(R.Entry(s, section_at(rng, m, pkg, f"{base}/run_exports/{s}", "RUN_EXPORTS", variables)))
            es.append(R.Entry(n, R.Map(subs)))
        elif r < 0.05 and not plain:
            es.append(R.Entry(n, None))
        elif r < 0.1 and not plain:
            t = dep_text(rng, variables, m.v1)
            c = R.comment(rng, com, com * 0.4) if not m.v1 else ""
            es.append(R.Entry(n, scalar(rng, t, c)))
            if kind:
                pkg.deps.append(Dep(f"{base}/{n}", kind, resolve(t, variables, m.v1), R.selector_of(c)))
        else:
            es.append(R.Entry(n, section(rng, m, pkg, base, n, com, variables, plain), rng.choice(["", "", "", "# remark"])))
    return R.Map(es) if any(isinstance(e, R.Entry) for e in es) else None


def section_at(rng: random.Random, m: Model, pkg: Package, path: str, kind: str, variables: dict[str, Any]) -> R.Seq:
    items: list[Any] = []
    for i in range(rng.randint(1, 3)):
        t = dep_text(rng, variables, m.v1)
        items.append(scalar(rng, t, ""))
        pkg.deps.append(Dep(f"{path}/{i}", kind, resolve(t, variables, m.v1), None))
    return R.Seq(items)


def make(rng: random.Random, com: float = 0.2, v1: Optional[bool] = None, multi: Optional[bool] = None, plain: bool = False, root_name: Optional[str] = None,
         messy: bool = True) -> Model:
    v1 = rng.random() < 0.35 if v1 is None else v1
    multi = rng.random() < 0.45 if multi is None else multi
    d = "$" if v1 else ""
    name = root_name or rng.choice([R.word(rng), R.word(rng) + "-" + R.word(rng), R.word(rng).capitalize()])
    variables: dict[str, Any] = {"name": name, "version": R.version(rng) + ".0"}
    if rng.random() < 0.4:
        variables["major"] = rng.choice([rng.randint(1, 9), "m" + R.word(rng)])
    m = Model(R.Doc(R.Map(), variables, int(v1)), "", [], multi, v1, None)
    es: list[Any] = []
    if v1:
        es.append(R.Entry("schema_version", R.Sc(1, "1")))
        es.append(R.Entry("context", R.Map([R.Entry(k, R.Sc(v, str(v))) for k, v in variables.items()])))
    elif rng.random() < com:
        es.append(R.Cm(rng.choice(R.COMMENTS)))
    nt = rng.choice([f"{d}{{{{ name }}}}", f"{d}{{{{ name|lower }}}}", name])
    m.root_name = resolve(nt, variables, v1)
    vt = f"{d}{{{{ version }}}}"
    es.append(R.Entry("recipe" if v1 and multi else "package", R.Map([R.Entry("name", R.Sc(nt, nt)), R.Entry("version", R.Sc(vt, vt))])))
    root = Package(m.root_name, "/")
    m.packages.append(root)
    if rng.random() < 0.5:
        es.append(R.Entry("build", R.Map([R.Entry("number", R.Sc(0, "0"))])))
    if not (v1 and multi) and (not multi or rng.random() < 0.6) and rng.random() < 0.95:
        es.append(R.Entry("requirements", requirements(rng, m, root, "/requirements", com, variables, plain)))
    if multi:
        outs: list[Any] = []
        for k in range(rng.choice([1, 2, 2, 3, 5])):
            on = f"{R.word(rng)}-out{k}"
            ont = rng.choice([on, f"{d}{{{{ name|lower }}}}-out{k}", f"lib-{d}{{{{ name }}}}-{k}"])
            p = Package(resolve(ont, variables, v1), f"/outputs/{k}")
            m.packages.append(p)
            ne = R.Entry("name", R.Sc(ont, ont if rng.random() < 0.8 else f'"{ont}"', rng.choice(["", "", "# main output"])))
            o: list[Any] = [R.Entry("package", R.Map([ne, R.Entry("version", R.Sc(vt, vt))]))] if v1 else [ne]
            if rng.random() < 0.3:
                o.append(R.Entry("build", R.Map([R.Entry("number", R.Sc(1, "1"))])))
            if rng.random() < 0.85:
                o.append(R.Entry("requirements", requirements(rng, m, p, f"/outputs/{k}/requirements", com, variables, plain)))
            if rng.random() < com * 0.3:
                outs.append(R.Cm(rng.choice(R.COMMENTS)))
            outs.append(R.Map(o))
        es.append(R.Entry("outputs", R.Seq(outs)))
    if rng.random() < 0.5:
        es.append(R.Entry("about", R.Map([R.Entry("home", R.plain("https://x.org")), R.Entry("license", R.plain("MIT"))])))
    if not v1 and rng.random() < 0.4:
        es.append(R.Entry("test", R.Map([R.Entry("requires", R.Seq([R.plain("pip"), R.plain("pytest")])), R.Entry("commands", R.Seq([R.plain("pip check")]))])))
    head, tail = es[: 3 if v1 else 1], es[3 if v1 else 1 :]
    if not plain and rng.random() < 0.2:
        rng.shuffle(tail)
    m.doc.root = R.Map(head + tail)
    if messy and rng.random() < 0.5:
        m.doc.messy = random.Random(rng.random())
        m.doc.indent = rng.choice([2, 2, 3, 4])
        m.doc.seq_indent = rng.random() < 0.6
    m.text = R.emit(m.doc)
    return m
