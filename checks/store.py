"""In-memory stand-ins for pickling to files (symbolic runs only; concrete replays use the real files)."""
from __future__ import annotations

from copy import deepcopy
from pathlib import Path
from typing import Any


class FakePickle:
    """dump/load/dumps/loads that keep a deep copy instead of bytes (serialisation itself is assumed to be faithful)."""

    HIGHEST_PROTOCOL = 5

    def __init__(self) -> None:
        self.objects: dict = {}

    def _keep(self, obj: Any) -> bytes:
        token = f"object {len(self.objects)}.".encode()
        self.objects[token] = deepcopy(obj)
        return token

    def _get(self, token: bytes) -> Any:
        if token not in self.objects:  # an incomplete file
            raise EOFError("Ran out of input")
        return deepcopy(self.objects[token])

    def dump(self, obj: Any, f: Any, *_: Any, **__: Any) -> None:
        f.write(self._keep(obj))

    def load(self, f: Any) -> Any:
        return self._get(f.read())

    # stand-ins for (de)serialize_chunker_index
    def save_index(self, index: Any, path: Any) -> None:
        path = Path(path)
        path.mkdir(parents=True, exist_ok=False)
        (path / "index").write_bytes(self._keep(index))

    def load_index(self, path: Any) -> Any:
        return self._get((Path(path) / "index").read_bytes())

    def dumps(self, obj: Any, *_: Any, **__: Any) -> "Blob":
        return Blob(deepcopy(obj))

    def loads(self, b: Any) -> Any:
        return deepcopy(b.obj)


class Blob(bytes):
    """opaque serialised object"""

    obj: Any

    def __new__(cls, obj: Any) -> "Blob":
        b = super().__new__(cls, b"blob")
        b.obj = obj
        return b

    def __deepcopy__(self, memo: Any) -> "Blob":
        return Blob(deepcopy(self.obj))

    def __eq__(self, o: object) -> bool:
        return self is o

    def __hash__(self) -> int:
        return id(self)
