"""C29: the message table keeps every message exactly once, in order, in its category."""

from __future__ import annotations

import contextlib
import io
import random
import re
from typing import Any

from lib.core import Obs, Violation

PROP = "C29"
LEVEL = "exploration"
RULE = (
    "Random histories of 1-60 operations (add, get, count, totals, print, clear) on 1-3 tables at once, stepped against a dictionary "
    "of lists. A case is non-trivial if at least three messages were recorded and something was cleared or queried."
)
ANCHORS = ["conda_recipe_manager/types.py", "conda_recipe_manager/commands/utils/print.py"]
COUNTS = {"quick": 20000, "thorough": 600000}
REQUIRED = ["added", "get", "count", "totals", "print", "clear", "pickled"]


def case(i: int, rng: random.Random, obs: Obs) -> None:
    import copy
    import pickle

    from conda_recipe_manager.commands.utils.print import print_messages
    from conda_recipe_manager.types import MessageCategory, MessageTable

    cats = list(MessageCategory)
    n = rng.choice([1, 1, 2, 3])
    tables: list[Any] = [MessageTable() for _ in range(n)]
    model: list[dict[Any, list[str]]] = [{c: [] for c in cats} for _ in range(n)]
    ops: list[Any] = []
    obs.data(ops=ops)
    serial = 0
    for _ in range(rng.randint(1, 60)):
        k = rng.randrange(n)
        t, m = tables[k], model[k]
        c = rng.choice(cats)
        op = rng.choice(["add", "add", "add", "add", "get", "count", "totals", "print", "clear" if rng.random() < 0.3 else "add", "copy"])
        ops.append((k, op, str(c)))
        if op == "add":
            serial += 1
            msg = rng.choice([f"message {serial}", "same message", "", "two\nlines", f"ünï {serial}", "%s {0}"])
            t.add_message(c, msg)
            m[c].append(msg)
            obs.count("added")
        elif op == "get":
            if list(t.get_messages(c)) != m[c]:
                raise Violation(f"get_messages({c}) is {t.get_messages(c)!r}, recorded {m[c]!r}", "messages")
            obs.count("get")
        elif op == "count":
            if t.get_message_count(c) != len(m[c]):
                raise Violation(f"get_message_count({c}) is {t.get_message_count(c)}, recorded {len(m[c])}", "count")
            obs.count("count")
        elif op == "totals":
            s = t.get_totals_message()
            e, w = len(m[MessageCategory.ERROR]), len(m[MessageCategory.WARNING])
            if not e and not w and not m[MessageCategory.EXCEPTION]:
                if s != "":
                    raise Violation(f"the totals of an empty table are {s!r}", "totals")
            elif e or w or s:
                nums = re.findall(r"(\d+) (error|warning)(s?)\b", s)
                want = [(str(e), "error", "" if e == 1 else "s"), (str(w), "warning", "" if w == 1 else "s")]
                if nums != want:
                    raise Violation(f"the totals are {s!r}, recorded {e} errors and {w} warnings", "totals")
            obs.count("totals")
        elif op == "print":
            buf = io.StringIO()
            out = io.StringIO()
            with contextlib.redirect_stderr(buf), contextlib.redirect_stdout(out):
                print_messages(c, t)
            want_s = "".join(f"[{c.upper()}]: {x}\n" for x in m[c])
            if buf.getvalue() != want_s or out.getvalue():
                raise Violation(f"print_messages({c}) printed {buf.getvalue()!r}, expected {want_s!r}", "print")
            obs.count("print")
        elif op == "clear":
            t.clear_messages()
            for x in m.values():
                x.clear()
            obs.count("clear")
        else:
            tables[k] = pickle.loads(pickle.dumps(t)) if rng.random() < 0.5 else copy.deepcopy(t)
            obs.count("pickled")
    for t, m in zip(tables, model):
        for c in cats:
            if list(t.get_messages(c)) != m[c] or t.get_message_count(c) != len(m[c]):
                raise Violation(f"at the end, {c} holds {t.get_messages(c)!r}, recorded {m[c]!r}", "messages")
    if serial >= 3:
        obs.distinct(ops)
        obs.sample(ops[:6], 1)
