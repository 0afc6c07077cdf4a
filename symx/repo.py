"""Loads the code under test from the repository's working tree and replaces environment functions by stubs."""
from __future__ import annotations

import contextlib
import os
import sys
import types
from typing import Any, Iterator

REPO = os.environ.get("VERIF_REPO", "/repo")
CPP = "mixtera.core.query.chunker.chunker_extension"


def load() -> None:
    """Import mixtera from REPO.  The C++ chunker extension cannot be built offline: a placeholder stands in for it."""
    if CPP in sys.modules:
        return
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    stub = types.ModuleType(CPP)

    def create_chunker_index_cpp(*_: Any, **__: Any) -> Any:
        raise RuntimeError("C++ chunker extension is not available")

    stub.create_chunker_index = stub.create_chunker_index_cpp = create_chunker_index_cpp  # type: ignore
    sys.modules[CPP] = stub
    from loguru import logger

    logger.remove()
    import mixtera.core.datacollection  # noqa: F401  (first: circular imports)
    import mixtera.core.query.query_result as qr

    base = qr.__file__
    if not os.path.realpath(base).startswith(os.path.realpath(os.path.join(REPO, "mixtera")) + os.sep):
        raise RuntimeError(f"mixtera was imported from {base}, not from {REPO}")


def mixtera_modules() -> list:
    return [m for n, m in list(sys.modules.items()) if (n == "mixtera" or n.startswith("mixtera.")) and m is not None]


class Patcher:
    """Replaces objects by identity wherever a mixtera module refers to them, and attributes of given objects."""

    def __init__(self) -> None:
        self._undo: list = []

    def attr(self, obj: Any, name: str, new: Any) -> None:
        had = name in vars(obj)
        old = vars(obj).get(name)
        self._undo.append((obj, name, had, old))
        setattr(obj, name, new)

    def everywhere(self, old: Any, new: Any) -> None:
        """every module-level name of mixtera bound to `old` becomes `new`"""
        for m in mixtera_modules():
            for k, v in list(vars(m).items()):
                if v is old:
                    self.attr(m, k, new)

    def undo(self) -> None:
        for obj, name, had, old in reversed(self._undo):
            if had:
                setattr(obj, name, old)
            else:
                delattr(obj, name)
        self._undo.clear()


@contextlib.contextmanager
def patched() -> Iterator[Patcher]:
    p = Patcher()
    try:
        yield p
    finally:
        p.undo()
