"""
Stand-in for `conda.models.match_spec`, following the steps of conda's `_parse_spec_str()`.

Only what conda-recipe-manager uses is provided: `MatchSpec(str)`, `.name` (lower-cased), `.version`, `.build`,
`.original_spec_str`, value equality/hash over the parsed components, and `InvalidMatchSpec` (a `ValueError`).
"""

from __future__ import annotations

import re
from typing import Any, Optional

from conda.exceptions import InvalidMatchSpec, InvalidVersionSpec

__all__ = ["InvalidMatchSpec", "MatchSpec"]

_VERSION_ATOM = re.compile(r"^(==|!=|<=|>=|=|<|>|~=)?\s*[\*\.\+!_0-9a-zA-Z\-]+$")
_OP_ONLY = re.compile(r"^(==|!=|<=|>=|=|<|>|~=)$")


def _check_version(version: str) -> str:
    """Normalizes a version constraint the way conda does (whitespace-insensitive) and rejects malformed ones."""
    compact = re.sub(r"\s+", "", version)
    if compact.count("(") != compact.count(")"):
        raise InvalidVersionSpec(version, "unbalanced parentheses")
    if compact.startswith("^") and compact.endswith("$"):
        return compact
    for atom in re.split(r"[|,]", compact.replace("(", "").replace(")", "")):
        if not atom or _OP_ONLY.match(atom) or not _VERSION_ATOM.match(atom):
            raise InvalidVersionSpec(version, "invalid operator or version")
    return compact


class MatchSpec:
    """Stand-in for conda's MatchSpec."""

    def __init__(self, spec: "str | MatchSpec") -> None:
        if isinstance(spec, MatchSpec):
            self.__dict__.update(spec.__dict__)
            return
        self.original_spec_str: str = spec
        self._components = self._parse(spec)

    @staticmethod
    def _parse(original: str) -> tuple[tuple[str, str], ...]:
        spec = original.strip()
        out: dict[str, str] = {}
        hash_idx = spec.find("#")
        if hash_idx >= 0:
            spec = spec[:hash_idx].strip()
        if " if " in spec:
            spec = spec.split(" if ", 1)[0].strip()
        bracket = re.match(r"^(.*)\[([^\[\]]*)\](.*)$", spec, re.DOTALL)
        if bracket is not None:
            spec = (bracket.group(1) + bracket.group(3)).strip()
            for m in re.finditer(r"([a-zA-Z0-9_-]+?)=([\"']?)([^\"',]*?(?:,[^\"'=]*?)*)(\2)(?:[, ]|$)", bracket.group(2)):
                key, value = m.group(1), m.group(3)
                if key is None or not value:
                    raise InvalidMatchSpec(original, "key-value mismatch in brackets")
                out[key] = value
        elif "[" in spec or "]" in spec:
            raise InvalidMatchSpec(original, "unbalanced brackets")
        parens = re.match(r"^(.*)\(([^()]*)\)$", spec)
        if parens is not None and "|" not in spec and "," not in spec:
            spec = parens.group(1).strip()
        if "::" in spec:
            out["channel"], spec = spec.rsplit("::", 1)
        elif ":" in spec:
            channel, ns_spec = spec.rsplit(":", 1)
            out["channel"], spec = channel, ns_spec
        m3 = re.match(r"([^ =<>!~]+)?([><!=~ ].+)?", spec)
        name = m3.group(1) if m3 is not None else None
        if m3 is None or name is None:
            raise InvalidMatchSpec(original, f"no package name found in '{spec}'")
        if not re.match(r"^[A-Za-z0-9_.*+\-^$]+$", name):
            raise InvalidMatchSpec(original, f"invalid package name '{name}'")
        rest = m3.group(2)
        out["name"] = name.lower()
        if rest is not None and rest.strip():
            rest = rest.strip()
            if "=" == rest[0] and rest[:2] != "==" and rest.count("=") == 2 and " " not in rest:
                version, build = rest[1:].split("=")
                if not version or not build:
                    raise InvalidMatchSpec(original, "empty version or build")
                out["version"], out["build"] = _check_version(version), build
            else:
                # `name >= 1.2, <2 build`: a build string is what follows the version after a space.
                glued = re.sub(r"((?:==|!=|<=|>=|~=|=|<|>)|[|,])\s+", r"\1", rest)
                glued = re.sub(r"\s+([|,])", r"\1", glued)
                parts = glued.split()
                if len(parts) > 2:
                    raise InvalidMatchSpec(original, f"too many components in '{rest}'")
                version = parts[0]
                if version.startswith("==") and len(version) > 2 and "," not in version and "|" not in version:
                    version = version[2:]
                elif re.match(r"^=[^=]", version) and "," not in version and "|" not in version:
                    version = version[1:] + ("" if len(parts) == 2 or version.endswith("*") else ".*")
                out["version"] = _check_version(version)
                if len(parts) == 2:
                    out["build"] = parts[1]
        if "version" in out:
            out["version"] = _check_version(out["version"])
        return tuple(sorted(out.items()))

    def _get(self, key: str) -> Optional[str]:
        return dict(self._components).get(key)

    @property
    def name(self) -> str:
        return self._get("name") or "*"

    @property
    def version(self) -> Optional[str]:
        return self._get("version")

    @property
    def build(self) -> Optional[str]:
        return self._get("build")

    def __eq__(self, other: Any) -> bool:
        return isinstance(other, MatchSpec) and self._components == other._components

    def __hash__(self) -> int:
        return hash(self._components)

    def __str__(self) -> str:
        return " ".join(x for x in (self.name, self.version, self.build) if x)

    def __repr__(self) -> str:
        return f'MatchSpec("{self}")'
