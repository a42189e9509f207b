"""
Model-first recipe generator. A recipe is generated as a small abstract document (with values, selectors, comments and
Jinja variables), from which both the text given to the real parser and every expected answer are derived. Nothing in
here imports the code under test.
"""

from __future__ import annotations

import copy
import json
import random
import string
from dataclasses import dataclass, field
from typing import Any, Iterator, Optional, Union

# ---------------------------------------------------------------------------------------------------------------------
# Document model


@dataclass
class Sc:
    """Scalar. `value` is what a reader must see; `text` is how it is written."""

    value: Any
    text: str
    comment: str = ""


@dataclass
class Multi:
    """Block scalar."""

    variant: str  # | |- |+ > >- >+
    lines: list[str]
    comment: str = ""


@dataclass
class Cm:
    """Comment-only line (text includes the leading `#`)."""

    text: str


@dataclass
class Map:
    entries: list[Any] = field(default_factory=list)  # Entry | Cm

    def get(self, key: str) -> Any:
        for e in self.entries:
            if isinstance(e, Entry) and e.key == key:
                return e.value
        return None

    def entry(self, key: str) -> Any:
        for e in self.entries:
            if isinstance(e, Entry) and e.key == key:
                return e
        return None

    def keys(self) -> list[str]:
        return [e.key for e in self.entries if isinstance(e, Entry)]


@dataclass
class Entry:
    key: str
    value: Any  # Sc | Multi | Map | Seq | None
    comment: str = ""  # only for Map/Seq/None values; scalars carry their own


@dataclass
class Seq:
    items: list[Any] = field(default_factory=list)  # Sc | Map | Cm


@dataclass
class Doc:
    root: Map
    variables: dict[str, Any] = field(default_factory=dict)
    schema: int = 0
    var_style: str = "canonical"
    indent: int = 2
    seq_indent: bool = True
    messy: Optional[random.Random] = None  # varies what YAML does not give a meaning to
    pending: list[str] = field(default_factory=list)  # set statements that are found further down, in front of some key


# ---------------------------------------------------------------------------------------------------------------------
# Text


def _tail(comment: str, doc: "Doc") -> str:
    m = doc.messy
    if not comment:
        return " " * m.randint(1, 3) if m is not None and m.random() < 0.05 else ""
    return (" " * m.randint(1, 4) if m is not None else "  ") + comment


def _blank(doc: "Doc", out: list[str]) -> None:
    if doc.messy is not None and doc.messy.random() < 0.05:
        out.append(" " * doc.messy.choice([0, 0, 1]))
    if doc.pending and doc.messy is not None and doc.messy.random() < 0.2:
        out.append(" " * doc.messy.choice([0, 0, 2, 2, 4, 6, 1]) + doc.pending.pop(0))


def _comment_line(text: str, col: int, doc: "Doc", out: list[str]) -> None:
    if doc.messy is not None and doc.messy.random() < 0.3:
        col = doc.messy.randint(0, col)
    out.append(" " * col + text)


def emit_value(key_prefix: str, value: Any, comment: str, col: int, doc: Doc, out: list[str]) -> None:
    pad = " " * col
    step = doc.indent
    _blank(doc, out)
    if value is None:
        out.append(f"{key_prefix}:{_tail(comment, doc)}")
    elif isinstance(value, Sc):
        sep = "" if value.text == "" else " "
        out.append(f"{key_prefix}:{sep}{value.text}{_tail(value.comment, doc)}")
    elif isinstance(value, Multi):
        out.append(f"{key_prefix}: {value.variant}{_tail(value.comment, doc)}")
        for ln in value.lines:
            out.append((f"{pad}{' ' * step}{ln}").rstrip() if ln.strip() else blank(doc, col + step))
    elif isinstance(value, Map):
        out.append(f"{key_prefix}:{_tail(comment, doc)}")
        emit_map(value, col + step, doc, out)
    elif isinstance(value, Seq):
        out.append(f"{key_prefix}:{_tail(comment, doc)}")
        emit_seq(value, col + (step if doc.seq_indent else 0), doc, out)
    else:
        raise TypeError(value)


def blank(doc: Doc, indent: int) -> str:
    """A line without text in a block scalar. It may have any number of spaces, up to the indentation of the block."""
    return " " * doc.messy.randint(0, indent) if doc.messy is not None and doc.messy.random() < 0.5 else ""


# Keys that are only read as they are if they are quoted
ODD_KEYS = ["3.10", "on", "no", "true", "null", "a: b", "@scope", "# k", "- a", "*", "[x]", "%w", "a # b", "2020-01-01", "key:", "&k", "!k"]


def key_text(key: str) -> str:
    return json.dumps(key) if key in ODD_KEYS else key


def emit_map(m: Map, col: int, doc: Doc, out: list[str], first_prefix: Optional[str] = None) -> None:
    first = True
    for e in m.entries:
        if isinstance(e, Cm):
            _comment_line(e.text, col, doc, out)
            continue
        pad = first_prefix if (first and first_prefix is not None) else " " * col
        emit_value(pad + key_text(e.key), e.value, e.comment, col, doc, out)
        first = False


def emit_seq(s: Seq, col: int, doc: Doc, out: list[str]) -> None:
    pad = " " * col
    for it in s.items:
        gap = doc.messy.choice([1, 1, 1, 2, 3]) if doc.messy is not None else 1
        if isinstance(it, Cm):
            _comment_line(it.text, col, doc, out)
        elif isinstance(it, Sc):
            out.append(f"{pad}-{' ' * gap}{it.text}{_tail(it.comment, doc)}")
        elif isinstance(it, Multi):
            out.append(f"{pad}-{' ' * gap}{it.variant}{_tail(it.comment, doc)}")
            for ln in it.lines:
                out.append(f"{pad}{' ' * doc.indent}{ln}".rstrip() if ln.strip() else blank(doc, col + doc.indent))
        elif isinstance(it, Map):
            own_line = doc.messy is not None and doc.messy.random() < 0.06 and it.entries and isinstance(it.entries[0], Entry)
            emit_map(it, col + 1 + gap, doc, out, first_prefix=f"{pad}-\n{' ' * (col + 1 + gap)}" if own_line else f"{pad}-{' ' * gap}")
        else:
            raise TypeError(it)


def var_text(v: Any) -> str:
    if isinstance(v, str):
        return f"'{v}'" if '"' in v else f'"{v}"'
    return str(v)


def emit(doc: Doc, blank_lines: bool = True) -> str:
    """Canonical text: two-space indentation, two spaces before comments, a blank line after each top-level section."""
    out: list[str] = []
    if doc.schema == 0:
        sets = [f"{{% set {k} = {var_text(v)} %}}" for k, v in doc.variables.items()]
        if doc.messy is not None and sets and doc.messy.random() < 0.4:
            k = doc.messy.randrange(len(sets))
            sets, doc.pending = sets[:k], sets[k:]
        out.extend(sets)
        if doc.variables and blank_lines:
            out.append("")
    if doc.messy is not None and doc.messy.random() < 0.04:
        out.insert(doc.messy.choice([0, len(out)]), doc.messy.choice(["---", "---", "---  # start"]))
    for e in doc.root.entries:
        if isinstance(e, Cm):
            out.append(e.text)
            continue
        emit_value(key_text(e.key), e.value, e.comment, 0, doc, out)
        if blank_lines:
            out.append("")
    if doc.messy is not None and doc.messy.random() < 0.01:
        out.append("...")
    out.extend(doc.pending)
    doc.pending = []
    return "\n".join(out) + ("" if blank_lines else "\n")


# ---------------------------------------------------------------------------------------------------------------------
# Expected answers


def block_value(m: Multi) -> str:
    """YAML's reading of a block scalar (clip for no sign, given that something always follows it)."""
    import yaml

    text = f"k: {m.variant}\n" + "".join((f"  {ln}".rstrip() if ln.strip() else "") + "\n" for ln in m.lines)
    return yaml.safe_load(text)["k"]


def to_obj(v: Any) -> Any:
    if v is None:
        return None
    if isinstance(v, Sc):
        return v.value
    if isinstance(v, Multi):
        return block_value(v)
    if isinstance(v, Seq):
        return [to_obj(i) for i in v.items if not isinstance(i, Cm)]
    if isinstance(v, Map):
        return {e.key: to_obj(e.value) for e in v.entries if isinstance(e, Entry)}
    raise TypeError(v)


def walk(v: Any, path: str = "") -> Iterator[tuple[str, Any, str]]:
    """Yields (path, node value, comment) for every addressable line, in file order."""
    if isinstance(v, Map):
        for e in v.entries:
            if isinstance(e, Cm):
                continue
            p = f"{path}/{e.key}"
            if isinstance(e.value, (Sc, Multi)):
                yield p, e.value, e.value.comment
            else:
                yield p, e.value, e.comment
                yield from walk(e.value, p)
    elif isinstance(v, Seq):
        i = 0
        for it in v.items:
            if isinstance(it, Cm):
                continue
            p = f"{path}/{i}"
            i += 1
            if isinstance(it, (Sc, Multi)):
                yield p, it, it.comment
            else:
                yield p, it, ""
                yield from walk(it, p)


def leaf_paths(doc: Doc) -> list[str]:
    return [p for p, v, _ in walk(doc.root) if v is None or isinstance(v, (Sc, Multi))]


def selector_of(comment: str) -> Optional[str]:
    i, j = comment.find("["), comment.rfind("]")
    return comment[i : j + 1] if 0 <= i < j else None


def selectors(doc: Doc) -> dict[str, list[str]]:
    tbl: dict[str, list[str]] = {}
    for p, _, c in walk(doc.root):
        s = selector_of(c)
        if s is not None:
            tbl.setdefault(s, [])
            if p not in tbl[s]:
                tbl[s].append(p)
    return tbl


def comment_only_lines(doc: Doc) -> list[str]:
    return [ln.strip() for ln in emit(doc).split("\n") if ln.strip().startswith("#")]


def get_path(obj: Any, path: str) -> Any:
    """JSON-pointer lookup (keys in recipes never contain `/` or `~`). Raises KeyError."""
    if path in ("", "/"):
        return obj
    for part in path[1:].split("/"):
        if isinstance(obj, list):
            if not part.isdecimal() or int(part) >= len(obj):
                raise KeyError(path)
            obj = obj[int(part)]
        elif isinstance(obj, dict):
            if part not in obj:
                raise KeyError(path)
            obj = obj[part]
        else:
            raise KeyError(path)
    return obj


def typed(v: Any) -> Any:
    """Makes equality type-exact (1 != True != 1.0)."""
    if isinstance(v, dict):
        return {"__d": [(k, typed(x)) for k, x in sorted(v.items(), key=lambda kv: str(kv[0]))]}
    if isinstance(v, (list, tuple)):
        return [typed(x) for x in v]
    return (type(v).__name__, v)


def same(a: Any, b: Any) -> bool:
    return typed(a) == typed(b)


def diff_obj(a: Any, b: Any, path: str = "") -> Optional[str]:
    """First difference between two objects (a: expected, b: got)."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return f"{path}/{k}: missing (expected {a[k]!r})"
            d = diff_obj(a[k], b[k], f"{path}/{k}")
            if d:
                return d
        for k in b:
            if k not in a:
                return f"{path}/{k}: unexpected {b[k]!r}"
        return None
    if isinstance(a, list) and isinstance(b, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff_obj(x, y, f"{path}/{i}")
            if d:
                return d
        if len(a) != len(b):
            return f"{path}: expected {len(a)} members {a!r}, got {len(b)} {b!r}"
        return None
    if type(a) is not type(b) or a != b:
        return f"{path or '/'}: expected {a!r}, got {b!r}"
    return None


# ---------------------------------------------------------------------------------------------------------------------
# Random pieces

PKGS = [
    "python", "numpy", "scipy", "openssl", "zlib", "libcurl", "pip", "setuptools", "wheel", "cmake", "ninja", "boost-cpp",
    "libprotobuf", "jinja2", "pyyaml", "m2-patch", "autoconf", "r-base", "perl", "nodejs", "_openmp_mutex", "xz", "bzip2",
    "typing-extensions", "importlib-metadata", "font-ttf-dejavu", "pkg-config", "hatchling", "poetry-core", "toml", "rust",
]
OPS = [">=", "<=", "==", "<", ">", "!=", "="]
PLATFORM_SELECTORS = ["osx", "linux", "win", "unix", "linux64", "osx64", "win64", "arm64", "x86_64", "aarch64", "ppc64le"]
SELECTORS = [
    "[osx]", "[linux]", "[win]", "[unix]", "[not win]", "[linux64]", "[osx and arm64]", "[unix and not osx]", "[py<38]",
    "[py>=310]", "[py==39]", "[win or linux]", "[linux and x86_64]", "[py<37 or win]", "[not unix]", "[s390x]",
    "[build_platform != target_platform]", "[cuda_compiler_version != \"None\"]",
]
WORDS = (
    "fast small library tool for parsing and writing data files with support async client server bindings utilities "
    "python package C++ wrapper simple modern typed streaming engine core"
).split()
COMMENTS = [
    "# keep in sync", "# TODO: unpin", "# needed at import time", "# see upstream issue 42", "# https://example.org/x?y=1",
    "# it's required", "# a # b", "#no space", "# \"quoted\"", "# don't: change",
    "# two  spaces",
]
# Comments on lines of their own, where brackets do not select anything
OWN_LINE = COMMENTS + ["# [win]", "# - old-dep >=1.0  # [osx]"]


def word(rng: random.Random, lo: int = 3, hi: int = 9) -> str:
    w = rng.choice(string.ascii_lowercase) + "".join(
        rng.choice(string.ascii_lowercase + string.digits) for _ in range(rng.randint(lo - 1, hi - 1))
    )
    return w + "z" if w in ("off", "yes", "true", "null", "false") else w


def version(rng: random.Random) -> str:
    return ".".join(str(rng.randint(0, 30)) for _ in range(rng.choice([2, 3, 3, 3, 4])))


def sha256(rng: random.Random) -> str:
    # A letter up front keeps it a YAML string whatever the digits are.
    return rng.choice("abcdf") + "".join(rng.choice("0123456789abcdef") for _ in range(62)) + rng.choice("abcdf")


def sentence(rng: random.Random, n: int = 0) -> str:
    n = n or rng.randint(2, 8)
    s = " ".join(rng.choice(WORDS) for _ in range(n))
    return s[0].upper() + s[1:]


def dep_spec(rng: random.Random, name: str = "") -> str:
    name = name or rng.choice(PKGS)
    r = rng.random()
    if r < 0.4:
        return name
    if r < 0.75:
        return f"{name} {rng.choice(OPS)}{version(rng)}"
    if r < 0.9:
        return f"{name} >={rng.randint(0, 3)}.{rng.randint(0, 9)},<{rng.randint(4, 9)}"
    return f"{name} {rng.randint(0, 9)}.{rng.randint(0, 9)}.*"


def comment(rng: random.Random, p_sel: float = 0.2, p_com: float = 0.1) -> str:
    r = rng.random()
    if r < p_sel:
        sel = rng.choice(SELECTORS)
        if rng.random() < 0.2:
            return f"# {sel} {rng.choice(COMMENTS).lstrip('# ')}"
        return f"# {sel}"
    if r < p_sel + p_com:
        return rng.choice(COMMENTS)
    return ""


def plain(value: str, comment_text: str = "") -> Sc:
    return Sc(value, value, comment_text)


def scalar(rng: random.Random, com: str = "", quoted: bool = True) -> Sc:
    """A scalar with an interesting YAML reading."""
    k = rng.randrange(16 if quoted else 9)
    if k == 0:
        v = rng.choice([0, 1, 2, 7, 42, 1000, -3])
        return Sc(v, str(v), com)
    if k == 1:
        v = rng.choice([1.5, 0.25, 3.1, 10.75, 1e20, 1e-07])
        return Sc(v, {1e20: "1.0e+20", 1e-07: "1.0e-07"}.get(v, str(v)), com)
    if k == 2:
        v = rng.random() < 0.5
        return Sc(v, rng.choice(["true", "True"] if v else ["false", "False"]), com)
    if k in (3, 4, 5):
        return plain(sentence(rng), com)
    if k == 6:
        return plain(f"https://example.org/{word(rng)}/{word(rng)}-{version(rng)}.tar.gz", com)
    if k == 7:
        return plain(rng.choice(["1.2.3", "0.10.8.6", "a-b_c", "foo=bar", "x/y/z.py", "$PREFIX/bin", "$LIBRARY_BIN\\x",
                                 "foo#bar", "a:b", "/", "test -f ${PREFIX}/lib/x", "foo >bar", "f(x)", "C++ & more", "~user"]), com)
    if k == 8:
        return plain(dep_spec(rng), com)
    # Strings that only quotes make strings
    if k in (9, 10):
        v = rng.choice(["1.10", "3.10", "42", "true", "no", "null", "~", "1e3", "0x1f", "2020-01-01", "1_000", "",
                        "off", ".5", "012"])
        return Sc(v, rng.choice([json.dumps(v), f"'{v}'"]), com)
    if k in (11, 12):
        v = rng.choice(["**/lib/*.so", "*", "- dash", "@scope/pkg", "%PREFIX%", "!important", "&anchor", "? q", "[a]",
                        "a: b", "key: value: x", "ends with colon:", "a # b", "#hash", "{x}", "{ y: 1 }", ", lead", "| pipe",
                        "> fold", "`tick`", "\\back", "=x", " lead and trail "])
        return Sc(v, rng.choice([json.dumps(v), f"'{v}'"]), com)
    if k == 13:
        v = rng.choice(["it's", "say \"hi\"", "both ' and \"", "don't stop # here", "\"all\""])
        return Sc(v, json.dumps(v), com)
    if k == 14:
        v = sentence(rng) + rng.choice([" \\d+", " ü", "", " 100%"])
        return Sc(v, json.dumps(v, ensure_ascii=False), com)
    v = f"'{word(rng)}'"
    return Sc(v, f"\"{v}\"", com)


def multi(rng: random.Random, indented: bool = True, jinja: bool = False) -> Multi:
    lines: list[str] = []
    for _ in range(rng.randint(1, 5)):
        r = rng.random()
        if r < 0.12 and lines:
            lines.append("")
        elif r < 0.3 and lines and indented:
            lines.append("  " * rng.randint(1, 2) + sentence(rng))
        elif r < 0.45:
            lines.append(rng.choice(["# not a comment", "key: value", "- item", "it's \"quoted\"", "x = {1: [2]}", "a  # [osx]",
                                     "$CC -o x", "100%", "- a: b", "cmake -S . \\", "--- x", "dir\\", "a\tb"]))
        else:
            lines.append(sentence(rng))
    while lines and lines[-1] == "":
        lines.pop()
    return Multi(rng.choice(["|", "|", "|", "|-", "|+", ">", ">-", ">+"]), lines)


# ---------------------------------------------------------------------------------------------------------------------
# Structural generator: arbitrary maps/lists/scalars in the recipe dialect


def rand_seq(rng: random.Random, depth: int, com: float, maps: bool = True, quoted: bool = True, jinja: Optional[list[str]] = None) -> Seq:
    items: list[Any] = []
    n = rng.randint(1, 5)
    kind = rng.random()
    for _ in range(n):
        if rng.random() < com * 0.6:
            items.append(Cm(rng.choice(OWN_LINE)))
        if maps and depth > 0 and (kind < 0.35 or (kind < 0.45 and rng.random() < 0.5)):
            items.append(rand_map(rng, depth - 1, com, quoted=quoted, jinja=jinja, in_seq=True))
        elif rng.random() < 0.03:
            items.append(multi(rng))
            items[-1].comment = comment(rng, com, com * 0.5)
        else:
            items.append(rand_scalar(rng, com, quoted, jinja))
        if rng.random() < 0.02:
            items.append(copy.deepcopy(items[-1]))
    if rng.random() < com * 0.3:
        items.append(Cm(rng.choice(OWN_LINE)))
    if items and isinstance(items[0], Cm) and rng.random() < 0.5:
        items.pop(0)
    return Seq(items)


def rand_scalar(rng: random.Random, com: float, quoted: bool, jinja: Optional[list[str]]) -> Sc:
    c = comment(rng, com, com * 0.5)
    if jinja and rng.random() < 0.2:
        v = rng.choice(jinja)
        return Sc(v, v, c)
    return scalar(rng, c, quoted)


def rand_map(
    rng: random.Random, depth: int, com: float, quoted: bool = True, jinja: Optional[list[str]] = None,
    in_seq: bool = False, keys: Optional[list[str]] = None, multis: bool = True,
) -> Map:
    entries: list[Any] = []
    used: set[str] = set()
    n = len(keys) if keys else rng.randint(1, 4)
    for i in range(n):
        key = keys[i] if keys else rng.choice([word(rng), word(rng), word(rng) + "_" + word(rng), word(rng) + "-" + word(rng)])
        if not keys and quoted and rng.random() < 0.02:
            key = rng.choice(ODD_KEYS)
        elif key in used or key in ("y", "n", "on", "no", "yes", "off", "true", "false", "null"):
            continue
        if key in used:
            continue
        used.add(key)
        if rng.random() < com * 0.4 and not (in_seq and not entries):
            entries.append(Cm(rng.choice(OWN_LINE)))
        r = rng.random()
        if depth > 0 and r < 0.25:
            entries.append(Entry(key, rand_map(rng, depth - 1, com, quoted, jinja), comment(rng, com * 0.5, com * 0.3)))
        elif depth > 0 and r < 0.5:
            entries.append(Entry(key, rand_seq(rng, depth - 1, com, quoted=quoted, jinja=jinja), comment(rng, com * 0.5, com * 0.3)))
        elif r < 0.57:
            entries.append(Entry(key, None, comment(rng, com * 0.5, com * 0.3)))
        elif multis and r < 0.64:
            entries.append(Entry(key, multi(rng)))
        else:
            entries.append(Entry(key, rand_scalar(rng, com, quoted, jinja)))
    return Map(entries)


TOP_KEYS = ["package", "source", "build", "requirements", "test", "about", "extra", "outputs", "app", "custom_section"]


def jinja_refs(rng: random.Random, names: list[str], schema: int = 0) -> list[str]:
    d = "$" if schema == 1 else ""
    out = [f"{d}{{{{ compiler('c') }}}}", f"{d}{{{{ unknown_var }}}}", f"{d}{{{{ stdlib('c') }}}} >=1"]
    for n in names:
        out += [
            f"{d}{{{{ {n} }}}}", f"{d}{{{{ {n}|lower }}}}", f"x-{d}{{{{ {n} }}}}.tar.gz", f"{d}{{{{{n}}}}}", f"pre {d}{{{{ {n} | upper }}}} post",
            f"https://e.org/{d}{{{{ {n} }}}}/f-{d}{{{{ {n}|lower }}}}.zip",
        ]
        if rng.random() < 0.3:
            out += [
                f"{d}{{{{ {n}[:3] }}}}", f"v{d}{{{{ {n}.split('.')[:2]|join('.') }}}}", f"{d}{{{{ {n} if {n} >= 3 else 'a/b' }}}}", f"{d}{{{{ {n}*2 }}}}-x", f"{d}{{{{ environ.get('A:B', \"<none>\") }}}}",
                f"{d}{{{{ {n} % 2 == 0 and {n} != 7 }}}}", f"a {d}{{{{ {n}[-1] }}}} b {d}{{{{ {n}|replace('_', '&') }}}}",
            ]
    return out


def rand_doc(rng: random.Random, depth: int = 3, com: float = 0.15, schema: int = 0, quoted: bool = True, variables: bool = True) -> Doc:
    names: dict[str, Any] = {}
    if variables and rng.random() < 0.8:
        names["name"] = word(rng)
        names["version"] = version(rng) + ".0"
        if rng.random() < 0.4:
            names["build_number"] = rng.randint(0, 9)
        if rng.random() < 0.3:
            names[word(rng)] = rng.choice([True, False, 3.5, "x y", "Mixed-Case"])
    keys = rng.sample(TOP_KEYS, rng.randint(1, 5))
    entries: list[Any] = []
    jr = jinja_refs(rng, list(names), schema)
    if schema == 1:
        entries.append(Entry("schema_version", Sc(1, "1")))
        if names:
            ctx = Map([Entry(k, Sc(v, json.dumps(v) if not isinstance(v, str) else (v if _plain_ok(v) else json.dumps(v)))) for k, v in names.items()])
            entries.append(Entry("context", ctx))
    for k in keys:
        if rng.random() < com * 0.5:
            entries.append(Cm(rng.choice(OWN_LINE)))
        r = rng.random()
        if r < 0.8:
            v: Any = rand_map(rng, depth - 1, com, quoted, jr)
        elif r < 0.95:
            v = rand_seq(rng, depth - 1, com, quoted=quoted, jinja=jr)
        elif r < 0.98:
            v = rand_scalar(rng, com, quoted, jr)
        else:
            v = None
        entries.append(Entry(k, v, comment(rng, com * 0.4, com * 0.3) if not isinstance(v, (Sc, Multi)) else ""))
    return Doc(Map(entries), names if schema == 0 or names else {}, schema)


def _plain_ok(s: str) -> bool:
    import yaml

    try:
        return yaml.safe_load(s) == s
    except yaml.YAMLError:
        return False


# ---------------------------------------------------------------------------------------------------------------------
# Realistic V0 recipes


def _deps(rng: random.Random, n: int, com: float, jinja_deps: bool = True, unique: bool = True) -> Seq:
    items: list[Any] = []
    names = rng.sample(PKGS, min(n, len(PKGS)))
    for name in names:
        if rng.random() < com * 0.3:
            items.append(Cm(rng.choice(OWN_LINE + ["# - commented-out >=1.0"])))
        r = rng.random()
        if jinja_deps and r < 0.1:
            t = rng.choice([f"{{{{ pin_compatible('{name}') }}}}", f"{name} {{{{ version }}}}", f"{{{{ compiler('{rng.choice(['c', 'cxx', 'rust'])}') }}}}"])
        else:
            t = dep_spec(rng, name)
        items.append(Sc(t, t, comment(rng, com, com * 0.4)))
    return Seq(items)


def requirements(rng: random.Random, com: float, jinja_deps: bool = True) -> Map:
    entries: list[Any] = []
    for sec in ("build", "host", "run", "run_constrained"):
        if rng.random() < {"build": 0.6, "host": 0.9, "run": 0.95, "run_constrained": 0.3}[sec]:
            if rng.random() < com * 0.2:
                entries.append(Cm(rng.choice(OWN_LINE)))
            entries.append(Entry(sec, _deps(rng, rng.randint(1, 5), com, jinja_deps), comment(rng, com * 0.1, com * 0.1)))
    if not entries:
        entries.append(Entry("host", _deps(rng, 2, com, jinja_deps)))
    return Map(entries)


def source(rng: random.Random, com: float, allow_list: bool = True) -> Any:
    def one(i: int) -> Map:
        r = rng.random()
        es: list[Any] = []
        if r < 0.8:
            t = rng.choice([
                "https://pypi.io/packages/source/{{ name[0] }}/{{ name }}/{{ name }}-{{ version }}.tar.gz",
                f"https://github.com/{word(rng)}/{{{{ name }}}}/archive/v{{{{ version }}}}.tar.gz",
                f"https://example.org/{word(rng)}-{version(rng)}.zip",
            ])
            es.append(Entry("url", Sc(t, t, comment(rng, com * 0.3, com * 0.2))))
            if rng.random() < 0.3:
                f = f"{word(rng)}.tar.gz"
                es.append(Entry("fn", plain(f)))
            es.append(Entry("sha256", plain(sha256(rng))))
        else:
            es.append(Entry("git_url", plain(f"https://github.com/{word(rng)}/{word(rng)}.git")))
            r2 = rng.random()
            if r2 < 0.4:
                es.append(Entry("git_tag", plain("v" + version(rng) + ".x")))
            elif r2 < 0.8:
                es.append(Entry("git_rev", plain(sha256(rng)[:40])))
            if rng.random() < 0.3:
                es.append(Entry("git_depth", Sc(1, "1")))
        if rng.random() < 0.3:
            f = "src_" + word(rng)
            es.append(Entry("folder", plain(f)))
        if rng.random() < 0.3:
            es.append(Entry("patches", Seq([plain(f"patches/{k:04d}-{word(rng)}.patch", comment(rng, com, 0.0)) for k in range(rng.randint(1, 3))])))
        return Map(es)

    if allow_list and rng.random() < 0.3:
        return Seq([one(i) for i in range(rng.choice([1, 2, 2, 3, 3, 5, 12]))])
    return one(0)


def test_section(rng: random.Random, com: float) -> Map:
    es: list[Any] = []
    if rng.random() < 0.6:
        es.append(Entry("imports", Seq([plain(word(rng)) for _ in range(rng.randint(1, 3))])))
    if rng.random() < 0.4:
        es.append(Entry("files", Seq([plain(f"{word(rng)}.py") for _ in range(rng.randint(1, 2))])))
    if rng.random() < 0.3:
        es.append(Entry("source_files", Seq([plain(f"tests/{word(rng)}") for _ in range(rng.randint(1, 2))])))
    if rng.random() < 0.6:
        es.append(Entry("requires", Seq([plain(rng.choice(["pip", "pytest >=6", "coverage", "hypothesis"]), comment(rng, com, 0.0))
                                         for _ in range(rng.randint(1, 2))])))
    if rng.random() < 0.8:
        pool = [rng.choice(["pip check", "pip check", "python3 -m pip check"]), "python -m pip check", f"{word(rng)} --help", "pytest -k \"not slow\"", "test -f $PREFIX/lib/libx.so",
                "python -c \"import x; print(x.y)\""]
        cmds = rng.sample(pool, rng.randint(1, 3))
        items = []
        for c in cmds:
            text = json.dumps(c) if '"' in c else c
            items.append(Sc(c, text, comment(rng, com, 0.0)))
        es.append(Entry("commands", Seq(items)))
    if rng.random() < 0.15:
        es.append(Entry("downstreams", Seq([plain(rng.choice(PKGS)) for _ in range(rng.randint(1, 2))])))
    if not es:
        es.append(Entry("imports", Seq([plain(word(rng))])))
    return Map(es)


LICENSES = ["MIT", "Apache-2.0", "BSD-3-Clause", "GPL-3.0-or-later", "Apache 2.0", "BSD 3-Clause", "mit", "LGPL-2.1-only", "PSF-2.0", "MIT AND ISC"]


def about(rng: random.Random, com: float) -> Map:
    es: list[Any] = []
    es.append(Entry("home", plain(f"https://{word(rng)}.org/")))
    if rng.random() < 0.8:
        s = sentence(rng)
        es.append(Entry("summary", plain(s)))
    if rng.random() < 0.4:
        es.append(Entry("description", multi(rng)))
    es.append(Entry("license", plain(rng.choice(LICENSES))))
    if rng.random() < 0.5:
        es.append(Entry("license_family", plain(rng.choice(["MIT", "BSD", "Apache", "GPL"]))))
    r = rng.random()
    if r < 0.4:
        es.append(Entry("license_file", plain("LICENSE")))
    elif r < 0.7:
        es.append(Entry("license_file", Seq([plain("LICENSE"), plain("NOTICE.txt", comment(rng, com, 0.0))])))
    if rng.random() < 0.6:
        es.append(Entry("doc_url", plain(f"https://docs.{word(rng)}.org/")))
    if rng.random() < 0.6:
        es.append(Entry("dev_url", plain(f"https://github.com/{word(rng)}/{word(rng)}")))
    return Map(es)


def build_section(rng: random.Random, com: float, output: bool = False) -> Map:
    es: list[Any] = []
    if not output or rng.random() < 0.3:
        es.append(Entry("number", Sc(n := rng.randint(0, 20), str(n))))
    if rng.random() < 0.35:
        es.append(Entry("noarch", plain(rng.choice(["python", "generic"]))))
    if rng.random() < 0.4:
        es.append(Entry("skip", Sc(True, rng.choice(["true", "True"]), f"# {rng.choice(['[py<38]', '[win]', '[py<37 or win]', '[not linux]'])}")))
    r = rng.random()
    if r < 0.45:
        t = "{{ PYTHON }} -m pip install . -vv --no-deps --no-build-isolation"
        es.append(Entry("script", Sc(t, t)))
    elif r < 0.65:
        es.append(Entry("script", Seq([plain("cmake -B build", comment(rng, com, 0)), plain("make install", comment(rng, com, 0))])))
    if rng.random() < 0.25:
        es.append(Entry("entry_points", Seq([plain(f"{(w := word(rng))} = {w}.cli:main") for _ in range(rng.randint(1, 2))])))
    if rng.random() < 0.2:
        es.append(Entry("missing_dso_whitelist", Seq([plain("$RPATH/libx.so"), plain("/usr/lib/liby.so", comment(rng, com, 0))])))
    if rng.random() < 0.15:
        es.append(Entry("run_exports", Seq([plain(dep_spec(rng))])))
    if rng.random() < 0.15:
        es.append(Entry("ignore_run_exports", Seq([plain(rng.choice(PKGS))])))
    if rng.random() < 0.15:
        es.append(Entry("script_env", Seq([plain(x) for x in rng.sample(["TOKEN", "FOO=bar", "CI", "X=1"], rng.randint(1, 3))])))
    if rng.random() < 0.1:
        es.append(Entry("merge_build_host", Sc(True, "true")))
    if not es:
        es.append(Entry("number", Sc(0, "0")))
    return Map(es)


def recipe_v0(rng: random.Random, com: float = 0.15, multi_output: Optional[bool] = None) -> Doc:
    """A realistic V0 recipe."""
    variables: dict[str, Any] = {"name": rng.choice([word(rng), word(rng) + "-" + word(rng), word(rng).capitalize()]), "version": version(rng) + ".0"}
    if rng.random() < 0.3:
        variables["build_number"] = rng.randint(0, 9)
    if rng.random() < 0.3:
        variables[rng.choice(["sha256_hash", "major", "soname"])] = word(rng)
    es: list[Any] = []
    if rng.random() < com:
        es.append(Cm(rng.choice(OWN_LINE)))
    n = rng.choice(["{{ name }}", "{{ name|lower }}", "{{ name | lower }}"])
    es.append(Entry("package", Map([Entry("name", Sc(n, n)), Entry("version", Sc("{{ version }}", "{{ version }}"))])))
    if rng.random() < 0.85:
        es.append(Entry("source", source(rng, com)))
    es.append(Entry("build", build_section(rng, com)))
    mo = rng.random() < 0.3 if multi_output is None else multi_output
    if not mo or rng.random() < 0.5:
        es.append(Entry("requirements", requirements(rng, com)))
    if mo:
        outs: list[Any] = []
        for k in range(rng.randint(1, 3)):
            o: list[Any] = [Entry("name", plain(f"{word(rng)}-out{k}"))]
            if rng.random() < 0.3:
                o.append(Entry("version", plain(version(rng) + ".1")))
            if rng.random() < 0.5:
                o.append(Entry("build", build_section(rng, com, output=True)))
            if rng.random() < 0.8:
                o.append(Entry("requirements", requirements(rng, com)))
            if rng.random() < 0.5:
                o.append(Entry("test", test_section(rng, com)))
            if rng.random() < 0.3:
                o.append(Entry("about", about(rng, com)))
            if rng.random() < com * 0.3:
                outs.append(Cm(rng.choice(OWN_LINE)))
            outs.append(Map(o))
        es.append(Entry("outputs", Seq(outs)))
    if rng.random() < 0.75:
        es.append(Entry("test", test_section(rng, com)))
    es.append(Entry("about", about(rng, com)))
    if rng.random() < 0.6:
        es.append(Entry("extra", Map([Entry("recipe-maintainers", Seq([plain(word(rng)) for _ in range(rng.randint(1, 3))]))])))
    return Doc(Map(es), variables, 0)


# ---------------------------------------------------------------------------------------------------------------------
# Independent reading of recipe text (PyYAML's pure-Python loader, no code under test)

import re as _re  # noqa: E402

_JINJA_SUB = _re.compile(r"\$?\{\{.*?\}\}")
_JINJA_LINE = _re.compile(r"(?m)^[ \t]*(\{%.*%\}|\{#.*#\})[ \t]*\n?")


def mask_tabs(text: str) -> str:
    """YAML (and libyaml) allows tabs within plain scalars; PyYAML's pure-Python scanner, which knows about lines, does not."""
    return _re.sub(r"(?<=[^\s#:-])\t(?=[^\s#])", "T", text)


def yaml_oracle(text: str) -> Any:
    """What a YAML reader sees in a recipe, with `{{ }}` substitutions kept as text (unescaped, inside of quoted strings)."""
    import yaml

    subs: list[str] = []

    def mark(m: Any) -> str:
        subs.append(m.group(0))
        return f"JJ{len(subs) - 1}JJ"

    marked = _JINJA_SUB.sub(mark, _JINJA_LINE.sub("", text))

    def back(v: Any) -> Any:
        if isinstance(v, str):
            return _re.sub(r"JJ(\d+)JJ", lambda m: subs[int(m.group(1))].replace('\\"', '"'), v)
        if isinstance(v, list):
            return [back(x) for x in v]
        if isinstance(v, dict):
            return {back(k): back(x) for k, x in v.items()}
        return v

    try:
        got = yaml.load(marked, Loader=yaml.SafeLoader)
    except yaml.scanner.ScannerError as e:
        # YAML allows tabs within plain scalars, which the pure-Python loader refuses and libyaml does not
        if "found character '\\t'" not in str(e):
            raise
        got = yaml.load(marked, Loader=yaml.CSafeLoader)
    return back(got)


def strip_nl(v: Any) -> Any:
    """Ignores trailing newlines of strings (the parser documents that it does not keep those of block scalars)."""
    if isinstance(v, str):
        return v.rstrip("\n")
    if isinstance(v, list):
        return [strip_nl(x) for x in v]
    if isinstance(v, dict):
        return {k: strip_nl(x) for k, x in v.items()}
    return v


def sections(text: str, top_comments: bool = True) -> dict[str, str]:
    """Splits recipe text into its top-level sections (comment lines in front of a key are kept with what precedes)."""
    out: dict[str, list[str]] = {"": []}
    key = ""
    for ln in text.split("\n"):
        m = _re.match(r"([^\s#{\-\"'][^:#]*|\"(?:[^\"\\]|\\.)*\"):", ln)
        if m:
            key = json.loads(m.group(1)) if ln.startswith('"') else m.group(1)
        if not top_comments and ln.startswith("#"):
            continue
        out.setdefault(key, []).append(ln)
    return {k: "\n".join(v).rstrip("\n") for k, v in out.items()}


def vary(doc: Doc, rng: random.Random) -> None:
    """Turns a canonical document into one that is written in another valid way, with one-line collections and nulls."""
    doc.messy = random.Random(rng.random())
    doc.indent = rng.choice([2, 2, 3, 4])
    doc.seq_indent = rng.random() < 0.6

    def flow() -> Sc:
        if rng.random() < 0.25:
            return Sc(None, rng.choice(["null", "~", "Null"]), comment(rng, 0.1, 0.1))
        if rng.random() < 0.7:
            v: Any = [rng.choice([word(rng), rng.randint(0, 99), version(rng) + ".1", True]) for _ in range(rng.randint(0, 4))]
        else:
            v = {word(rng): rng.choice([word(rng), 3, False]) for _ in range(rng.randint(0, 3))}
        return Sc(v, json.dumps(v) if rng.random() < 0.5 else _flow_text(v), comment(rng, 0.1, 0.1))

    def go(v: Any) -> None:
        if isinstance(v, Map):
            for e in v.entries:
                if isinstance(e, Entry):
                    if isinstance(e.value, Sc) and rng.random() < 0.06 and e.key != "schema_version":
                        e.value = flow()
                    elif e.key != "context":
                        go(e.value)
        elif isinstance(v, Seq):
            for k, it in enumerate(v.items):
                if isinstance(it, Sc) and rng.random() < 0.03:
                    v.items[k] = flow()
                else:
                    go(it)

    go(doc.root)


def _flow_text(v: Any) -> str:
    if isinstance(v, list):
        return "[" + ", ".join(_flow_text(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join(f"{k}: {_flow_text(x)}" for k, x in v.items()) + "}"
    if isinstance(v, bool):
        return "true" if v else "false"
    return str(v) if not isinstance(v, str) or _plain_ok(v) else json.dumps(v)


def has_duplicate_keys(text: str) -> bool:
    import yaml

    class Loader(yaml.SafeLoader):
        pass

    dup: list[Any] = []

    def construct(loader: Any, node: Any, deep: bool = False) -> Any:
        keys = [loader.construct_object(k, deep=True) for k, _ in node.value]
        if len(set(map(str, keys))) != len(keys):
            dup.append(keys)
        return yaml.SafeLoader.construct_mapping(loader, node, deep=True)

    Loader.add_constructor(yaml.resolver.BaseResolver.DEFAULT_MAPPING_TAG, construct)
    marked = _JINJA_SUB.sub("JJ", _JINJA_LINE.sub("", text))
    yaml.load(mask_tabs(marked), Loader=Loader)
    return bool(dup)


def line_paths(text: str) -> dict[int, str]:
    """Line number -> path of the (deepest) key or list member that starts on it, according to the YAML composer."""
    import yaml

    marked = _JINJA_SUB.sub("JJ", _re.sub(r"(?m)^[ \t]*(\{%.*%\}|\{#.*#\})[ \t]*$", "", text))
    out: dict[int, str] = {}

    def go(node: Any, path: str) -> None:
        if isinstance(node, yaml.MappingNode):
            if node.flow_style and path:
                return
            for k, v in node.value:
                p = f"{path}/{k.value}"
                out[k.start_mark.line] = p
                go(v, p)
        elif isinstance(node, yaml.SequenceNode):
            if node.flow_style:
                return
            for i, v in enumerate(node.value):
                p = f"{path}/{i}"
                out[v.start_mark.line] = p
                go(v, p)

    go(yaml.compose(mask_tabs(marked), Loader=yaml.SafeLoader), "")
    return out


def commented(v: Any, path: str = "") -> Any:
    """Yields (path, object that carries the comment) for every addressable line."""
    if isinstance(v, Map):
        for e in v.entries:
            if not isinstance(e, Entry):
                continue
            p = f"{path}/{e.key}"
            if isinstance(e.value, Multi):
                yield p, e.value
                continue
            yield p, e.value if isinstance(e.value, Sc) else e
            yield from commented(e.value, p)
    elif isinstance(v, Seq):
        for i, it in enumerate(x for x in v.items if not isinstance(x, Cm)):
            if isinstance(it, (Sc, Multi)):
                yield f"{path}/{i}", it
            else:
                yield from commented(it, f"{path}/{i}")


def comment_lines(v: Any) -> Any:
    """Yields every comment-only line, in file order."""
    for e in v.entries if isinstance(v, Map) else v.items if isinstance(v, Seq) else []:
        if isinstance(e, Cm):
            yield e
        else:
            yield from comment_lines(e.value if isinstance(e, Entry) else e)


def tag_comments(doc: Doc, rng: random.Random) -> None:
    """Makes every comment unique, so that each can be followed."""
    n = 0
    for _, o in commented(doc.root):
        if isinstance(o, Multi) and rng.random() < 0.2:
            o.comment = rng.choice(["# x", "# [osx]"])
        if not o.comment:
            continue
        n += 1
        sel = selector_of(o.comment)
        if sel is None:
            o.comment = f"# c{n}c"
        elif rng.random() < 0.4:
            o.comment = f"# {sel} c{n}c"
    for c in comment_lines(doc.root):
        n += 1
        c.text = c.text.rstrip() + f" k{n}k"
