"""C04: selector and comment edits change exactly the targeted line; the query tables match the rendered text."""

from __future__ import annotations

import ast
import itertools
import random
import re
from typing import Any, Optional

from checks import c06
from lib import recipes as R
from lib.core import Obs, Violation

PROP = "C04"
LEVEL = "exploration"
RULE = (
    "Random recipes put through random histories of 1-14 selector and comment edits (all conflict modes, text and parsed selectors, wrong paths and malformed input, interleaved with patches). After every edit the rendered text is "
    "compared line by line with a model that allows the targeted line only to change; combined selectors are compared as boolean functions of all their operands; the query tables are compared with a reading of the rendered text by "
    "YAML's token scanner. A case is non-trivial if it changed at least two lines."
)
ANCHORS = ["conda_recipe_manager/parser/recipe_parser.py", "conda_recipe_manager/parser/recipe_reader.py", "conda_recipe_manager/parser/_selector_info.py", "conda_recipe_manager/parser/_node.py"]
COUNTS = {"quick": 1500, "thorough": 40000}
REQUIRED = ["add_replace", "add_and", "add_or", "combined", "combined_grouped", "selector_before_comment", "removed", "removed_kept_comment", "remove_none", "comment_added", "comment_after_selector", "comment_replaced", "refused",
            "first_key_of_list_member", "block_scalar", "list_header", "empty_key", "parsed_selector", "patches", "tables", "table_paths", "v1"]
ASSUMPTIONS = [
    "Replacing or combining a selector may drop the comment that follows it (as the tests pin), but never changes it.",
    "Text in brackets at the end of a line is a selector; comments with other brackets are not generated.",
]

# ---------------------------------------------------------------------------------------------------------------------
# Reading a rendered recipe without the code under test


def read(text: str) -> tuple[dict[int, str], list[tuple[str, int]]]:
    """Comment of each line (by YAML's scanner) and line of each path, in file order."""
    import yaml

    marked = R._JINJA_SUB.sub(lambda m: "J" * len(m.group(0)), re.sub(r"(?m)^[ \t]*(\{%.*%\}|\{#.*#\})[ \t]*$", "", text))
    lines = marked.split("\n")
    orig = text.split("\n")
    ends: dict[int, int] = {}
    block: set[int] = set()
    for t in yaml.scan(R.mask_tabs(marked), Loader=yaml.SafeLoader):
        if isinstance(t, yaml.ScalarToken) and t.style in ("|", ">"):
            # The header ends after the indicator
            m = re.compile(r"[|>][+-]?").match(lines[t.start_mark.line], t.start_mark.column)
            assert m is not None
            ends[t.start_mark.line] = m.end()
            last = t.end_mark.line if t.end_mark.column else t.end_mark.line - 1
            block.update(range(t.start_mark.line + 1, last + 1))
            continue
        if isinstance(t, (yaml.StreamStartToken, yaml.StreamEndToken, yaml.BlockMappingStartToken, yaml.BlockEndToken, yaml.BlockSequenceStartToken)):
            continue
        m2 = t.end_mark
        if t.start_mark.index != t.end_mark.index:
            ends[m2.line] = max(ends.get(m2.line, 0), m2.column)
    comments = {}
    for n, end in ends.items():
        if n in block:
            continue
        rest = orig[n][end:].strip()
        if rest:
            if not rest.startswith("#"):
                raise AssertionError(f"scanner: {orig[n]!r} at {end}: {rest!r}")
            comments[n] = rest
    paths: list[tuple[str, int]] = []

    def go(node: Any, path: str) -> None:
        if isinstance(node, yaml.MappingNode):
            if node.flow_style:
                return
            for k, v in node.value:
                p = f"{path}/{k.value}"
                paths.append((p, k.start_mark.line))
                go(v, p)
        elif isinstance(node, yaml.SequenceNode):
            if node.flow_style:
                return
            for i, v in enumerate(node.value):
                p = f"{path}/{i}"
                paths.append((p, v.start_mark.line))
                go(v, p)

    go(yaml.compose(R.mask_tabs(marked), Loader=yaml.SafeLoader), "")
    return comments, paths


def tail(com: str) -> str:
    """A comment without its selector and leading marks."""
    s = R.selector_of(com)
    return re.sub(r"^[#\s]+", "", com.replace(s, "", 1) if s else com).strip()


# ---------------------------------------------------------------------------------------------------------------------
# Boolean meaning


def tree(sel: str) -> ast.expr:
    body = re.sub(r"\b(and|or|not)\b", lambda m: m.group(0).lower(), sel[1:-1], flags=re.I)
    return ast.parse(body.strip(), mode="eval").body


def atoms(t: ast.expr) -> set[str]:
    if isinstance(t, ast.BoolOp):
        return {a for v in t.values for a in atoms(v)}
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return atoms(t.operand)
    return {ast.unparse(t).lower()}


def holds(t: ast.expr, env: dict[str, bool]) -> bool:
    if isinstance(t, ast.BoolOp):
        f = all if isinstance(t.op, ast.And) else any
        return f(holds(v, env) for v in t.values)
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return not holds(t.operand, env)
    return env[ast.unparse(t).lower()]


def is_combination(got: str, a: str, b: str, conj: bool, rng: random.Random) -> bool:
    try:
        g, x, y = tree(got), tree(a), tree(b)
    except SyntaxError:
        return False
    names = sorted(atoms(x) | atoms(y))
    if not atoms(g) <= set(names):
        return False
    envs: Any = itertools.product([False, True], repeat=len(names)) if len(names) <= 9 else ([rng.random() < 0.5 for _ in names] for _ in range(400))
    for bits in envs:
        env = dict(zip(names, bits))
        want = (holds(x, env) and holds(y, env)) if conj else (holds(x, env) or holds(y, env))
        if holds(g, env) is not want:
            return False
    return True


# ---------------------------------------------------------------------------------------------------------------------


class State:
    def __init__(self, text: str) -> None:
        self.lines = text.split("\n")
        self.comments, self.paths = read(text)
        self.line = dict(self.paths)

    def code(self, n: int) -> str:
        ln, c = self.lines[n], self.comments.get(n, "")
        return ln[: len(ln) - len(c)].rstrip() if c else ln.rstrip()


def tables(p: Any, st: State, obs: Obs) -> None:
    """Every query must give what the text says."""
    sels: dict[str, list[str]] = {}
    coms: dict[str, str] = {}
    for path, n in st.paths:
        c = st.comments.get(n, "")
        s = R.selector_of(c)
        if s:
            sels.setdefault(s, []).append(path)
        if tail(c):
            coms[path] = tail(c)
        if p.contains_selector_at_path(path) is not bool(s):
            raise Violation(f"contains_selector_at_path({path!r}) is not {bool(s)}, the line is {st.lines[n]!r}", "contains at path")
        if p.get_selector_at_path(path, "[default]") != (s or "[default]"):
            raise Violation(f"get_selector_at_path({path!r}) is {p.get_selector_at_path(path, '[default]')!r}, the line is {st.lines[n]!r}", "at path")
        if not s:
            for bad in ("x [win]", "win", ""):
                try:
                    p.get_selector_at_path(path, bad)
                    raise Violation(f"get_selector_at_path({path!r}, {bad!r}) accepts a malformed default", "at path: malformed")
                except ValueError:
                    pass
            try:
                p.get_selector_at_path(path)
                raise Violation(f"get_selector_at_path({path!r}) gives a selector for {st.lines[n]!r}", "at path: none")
            except KeyError:
                pass
        obs.count("table_paths")
    if p.list_selectors() != list(sels):
        raise Violation(f"list_selectors() is {p.list_selectors()}, the text has {list(sels)}", "list")
    for s, ps in sels.items():
        if p.get_selector_paths(s) != ps:
            raise Violation(f"get_selector_paths({s!r}) is {p.get_selector_paths(s)}, the text has {ps}", "paths")
        if not p.contains_selector(s):
            raise Violation(f"contains_selector({s!r}) is False", "contains")
    for s in ("[nonsense]", "", "[osx and nonsense]", "osx"):
        if p.contains_selector(s) or p.get_selector_paths(s) != []:
            raise Violation(f"{s!r} is reported as a selector", "absent")
    got = p.get_comments_table()
    for path, c in got.items():
        if not c.startswith("#"):
            raise Violation(f"the comment table has {c!r} at {path}", "comment text")
    if {k: tail(c) for k, c in got.items()} != coms:
        d = R.diff_obj(coms, {k: tail(c) for k, c in got.items()})
        raise Violation(f"the comment table differs: {d}", "comments")
    obs.count("tables")


def rand_sel(rng: random.Random) -> str:
    if rng.random() < 0.5:
        return rng.choice(R.SELECTORS)
    if rng.random() < 0.1:
        # Brackets within the selector
        return rng.choice(["[vc in [9, 14]]", "[win and vc in [9, 14]]", "[[9, 14] == vc]", "[(vc in [9]) and not osx]", "[cuda in ['11', '12'] or win]"])
    return "[" + c06.text_of(c06.rand_tree(rng, rng.randint(1, 4)), rng if rng.random() < 0.3 else None) + "]"


NOTES = ["keep in sync", "two  spaces  inside", "tab\there", "# TODO: unpin", "#tight", "it's required", "see https://example.org/#frag", "   padded  ", "a # b", "\"quoted\"", "colon: here", "- dash", "ünïcode", "only in C#", "## heading ##", "a #", "ends with \\", "{{ name }}", "50% faster", "f(x)"]


def case(i: int, rng: random.Random, obs: Obs) -> None:
    from conda_recipe_manager.parser.enums import SchemaVersion, SelectorConflictMode
    from conda_recipe_manager.parser.recipe_parser import RecipeParser
    from conda_recipe_manager.parser.selector_parser import SelectorParser

    if len(SelectorConflictMode) != 3 or len({SelectorConflictMode.AND, SelectorConflictMode.OR, SelectorConflictMode.REPLACE}) != 3:
        raise Violation(f"the modes {list(SelectorConflictMode)} are not distinct", "modes")
    v1 = rng.random() < 0.15
    doc = R.recipe_v0(rng, com=rng.choice([0.05, 0.3])) if not v1 and rng.random() < 0.4 else R.rand_doc(rng, com=rng.choice([0.05, 0.3]), schema=int(v1))
    if rng.random() < 0.3:
        R.vary(doc, rng)
    if rng.random() < 0.2:
        # The selector may follow the text of the comment
        for _, o in R.commented(doc.root):
            if "[" in o.comment and rng.random() < 0.6:
                o.comment = f"# {rng.choice(['note', 'see issue 42', 'TODO: x,', '# only'])} {R.selector_of(o.comment)}"
                obs.count("trailing_selectors")
    text = R.emit(doc)
    obs.data(text=text)
    p = RecipeParser(text)
    if v1:
        obs.count("v1")
    st = State(p.render())
    tables(p, st, obs)
    history: list[Any] = []
    changed = set()
    for _ in range(rng.randint(1, 14)):
        # A few lines are edited again and again
        pool = [q for q, _ in st.paths]
        if not pool:
            return
        hot = [q for q, n in st.paths if n in changed]
        path = rng.choice(hot) if hot and rng.random() < 0.5 else rng.choice(pool)
        n = st.line[path]
        old = st.comments.get(n, "")
        osel, orest = R.selector_of(old), tail(old)
        op = rng.choice(["add", "add", "add", "remove", "comment", "comment", "bad", "patch"])
        want: Any = None
        if op == "add":
            sel = rand_sel(rng)
            mode = rng.choice(list(SelectorConflictMode))
            arg: Any = sel
            if rng.random() < 0.3:
                arg = SelectorParser(sel, SchemaVersion.V0)
                obs.count("parsed_selector")
            history.append((op, path, sel, mode.name))
            obs.data(text=text, history=history)
            if mode == SelectorConflictMode.REPLACE and rng.random() < 0.5:
                p.add_selector(path, arg)
            else:
                p.add_selector(path, arg, mode)
            obs.count(f"add_{mode.name.lower()}")

            def want(new: str) -> Optional[str]:
                nsel, nrest = R.selector_of(new), tail(new)
                if mode == SelectorConflictMode.REPLACE or osel is None:
                    if nsel is None or nsel.replace("[ ", "[").replace(" ]", "]") != sel.replace("[ ", "[").replace(" ]", "]"):
                        return f"selector {nsel}, expected {sel}"
                else:
                    if nsel is None or not is_combination(nsel, osel, sel, mode == SelectorConflictMode.AND, rng):
                        return f"{osel} {mode.name} {sel} gives {nsel}"
                    obs.count("combined")
                    if "(" in nsel and "(" not in osel + sel:
                        obs.count("combined_grouped")
                if nrest != orest and (nrest != "" or (osel is None and mode != SelectorConflictMode.REPLACE)):
                    return f"the comment {orest!r} became {nrest!r}"
                if osel is None and orest and nrest:
                    obs.count("selector_before_comment")
                if not re.match(r"# \[", new):
                    return f"comment {new!r}"
                return None

        elif op == "remove":
            history.append((op, path))
            obs.data(text=text, history=history)
            res = p.remove_selector(path)
            if res != osel:
                raise Violation(f"remove_selector({path!r}) returns {res!r}, the selector was {osel!r}", "remove result")
            obs.count("removed" if osel else "remove_none")
            if osel and orest:
                obs.count("removed_kept_comment")

            def want(new: str) -> Optional[str]:
                if not osel:
                    return None if new == old else f"{old!r} became {new!r}"
                return None if R.selector_of(new) is None and tail(new) == orest else f"{old!r} became {new!r}"

        elif op == "comment":
            c = rng.choice(NOTES)
            history.append((op, path, c))
            obs.data(text=text, history=history)
            p.add_comment(path, c)
            obs.count("comment_added")
            obs.count("comment_after_selector" if osel else "comment_replaced" if orest else "comment_added")

            def want(new: str) -> Optional[str]:
                return None if R.selector_of(new) == osel and tail(new) == tail(c) else f"{old!r} with {c!r} became {new!r}"

        elif op == "bad":
            missing = rng.choice(["/no/such/path", path + "/nope", "/99", "", "/", path.rsplit("/", 1)[0] + "/77"])
            kind = rng.randrange(5)
            calls: list[Any] = [
                (KeyError, lambda: p.add_selector(missing, "[osx]", rng.choice(list(SelectorConflictMode)))),
                (ValueError, lambda: p.add_selector(path, rng.choice(["", "osx", "# [osx]", "[osx", "osx]", "[osx]\n", "[osx] and more", "[os\nx]"]))),
                (KeyError, lambda: p.remove_selector(missing)),
                (KeyError, lambda: p.add_comment(missing, "note")),
                (ValueError, lambda: p.add_comment(path, rng.choice(["", "  ", "\t", "[osx]", " [win] x", "two\nlines", "two\r\nlines"]))),
            ]
            exc, fn = calls[kind]
            history.append((op, kind, missing))
            obs.data(text=text, history=history)
            try:
                fn()
            except exc:
                obs.count("refused")
            else:
                raise Violation(f"{history[-1]} is accepted", "accepted")
            if p.contains_selector_at_path(missing):
                raise Violation(f"{missing!r} has a selector", "missing path")

            def want(new: str) -> Optional[str]:
                return None if new == old else f"{old!r} became {new!r}"

        else:
            kind2 = rng.choice(["remove", "replace", "move", "copy"])
            ops: dict[str, Any] = {"op": kind2, "path": path}
            if kind2 == "replace":
                ops["value"] = rng.choice(["new value", ["a", "b"], ["c"], {"k": 1}, 5])
            elif kind2 in ("move", "copy"):
                ops["from"], ops["path"] = path, rng.choice(["/about/moved", "/moved"])
            if path in ("/schema_version", "/context") or len(st.paths) < 6 and kind2 != "replace":
                continue
            history.append(ops)
            obs.data(text=text, history=history)
            p.patch(ops)
            obs.count("patches")
            try:
                st = State(p.render())
            except Exception as e:  # noqa: BLE001  (C02 and C03 look at patches)
                raise Violation(f"the patched recipe does not read: {e!r}", "patched text") from e
            changed = set()
            tables(p, st, obs)
            continue
        new_lines = p.render().split("\n")
        if len(new_lines) != len(st.lines):
            raise Violation(f"{history[-1]}: {len(st.lines)} lines became {len(new_lines)}", "line count")
        for k, (a, b) in enumerate(zip(st.lines, new_lines)):
            if k != n and a != b:
                raise Violation(f"{history[-1]} changes line {k + 1} {a!r} to {b!r}", "other line")
        code = st.code(n)
        if not new_lines[n].startswith(code):
            raise Violation(f"{history[-1]} changes line {st.lines[n]!r} to {new_lines[n]!r}", "line code")
        rest = new_lines[n][len(code) :]
        if rest.strip() and not rest.startswith("  #"):
            raise Violation(f"{history[-1]} changes line {st.lines[n]!r} to {new_lines[n]!r}", "line format")
        bad = want(rest.strip())
        if bad:
            raise Violation(f"{history[-1]}: {bad}", f"{op} comment")
        if new_lines[n] != st.lines[n]:
            changed.add(n)
            if n in (m for q, m in st.paths if q != path):
                obs.count("first_key_of_list_member")
            if re.search(r"[|>][+-]?$", code):
                obs.count("block_scalar")
            elif code.endswith(":"):
                obs.count("list_header" if path + "/0" in st.line else "empty_key")
        st = State("\n".join(new_lines))
        if st.comments.get(n, "") != rest.strip():
            raise Violation(f"{history[-1]}: the line {new_lines[n]!r} has the comment {st.comments.get(n, '')!r}", "not a comment")
        tables(p, st, obs)
    # A new reader of the text agrees
    tables(RecipeParser("\n".join(st.lines)), st, obs)
    if len(changed) >= 2:
        obs.distinct(text + repr(history))
        obs.sample({"history": history[:4], "lines": [st.lines[n] for n in sorted(changed)][:4]}, 2)
