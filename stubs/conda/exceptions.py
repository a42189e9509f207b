"""Stand-in for `conda.exceptions`: the exceptions the match-spec parser raises (both are `ValueError`s in conda too)."""


class CondaError(Exception):
    pass


class InvalidSpec(CondaError, ValueError):
    pass


class InvalidVersionSpec(InvalidSpec):
    def __init__(self, invalid_spec: str, details: str) -> None:
        super().__init__(f"Invalid version '{invalid_spec}': {details}")


class InvalidMatchSpec(InvalidSpec):
    def __init__(self, invalid_spec: object, details: str) -> None:
        super().__init__(f"Invalid spec '{invalid_spec}': {details}")

    def __reduce__(self):  # type: ignore[no-untyped-def]
        return (_rebuild, (str(self),))


def _rebuild(msg: str) -> "InvalidMatchSpec":
    exc = InvalidMatchSpec("", "")
    exc.args = (msg,)
    return exc
