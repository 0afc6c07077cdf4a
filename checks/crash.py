"""Crash points: the states of a directory that a crash of a running function can leave behind."""
from __future__ import annotations

import sys
from pathlib import Path
from typing import Any, Callable

from symx import repo


def read_tree(root: Path) -> dict:
    return {str(p.relative_to(root)): None if p.is_dir() else p.read_bytes() for p in sorted(root.rglob("*"))}


def write_tree(root: Path, tree: dict) -> None:
    root.mkdir(parents=True, exist_ok=True)
    for rel, content in sorted(tree.items()):
        if content is None:
            (root / rel).mkdir(parents=True, exist_ok=True)
        else:
            (root / rel).parent.mkdir(parents=True, exist_ok=True)
            (root / rel).write_bytes(content)


def crash_states(root: Path, fn: Callable[[], Any]) -> tuple:
    """Runs fn; returns its result and every state of `root` that a crash can leave behind.

    The directory is looked at before every line of mixtera and of the file functions of the standard library; a file
    that got its contents since the last state may also have got only a part of it."""
    seen: list = []

    def look() -> None:
        t = read_tree(root)
        if not seen or t != seen[-1]:
            seen.append(t)

    base = str(Path(repo.REPO).resolve())
    std = ("/shutil.py",)

    def local(frame: Any, event: str, arg: Any) -> Any:
        if event in ("line", "return"):
            look()
        return local

    def tracer(frame: Any, event: str, arg: Any) -> Any:
        f = frame.f_code.co_filename
        return local if f.startswith(base) or f.endswith(std) else None

    look()
    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        res = fn()
    finally:
        sys.settrace(old)
    look()
    states = []
    for prev, t in zip([{}] + seen, seen):
        for rel, content in t.items():
            renamed = any(c == content and q not in t for q, c in prev.items())
            if content and prev.get(rel) != content and not renamed and t is not seen[0]:
                for n in (0, len(content) // 2):
                    if n < len(content) and prev.get(rel) != content[:n]:
                        states.append({**t, rel: content[:n]})
        states.append(t)
    return res, states
