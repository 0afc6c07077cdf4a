"""Connections without sockets: real asyncio streams over memory, whose segmentation is an input of the scenario."""
from __future__ import annotations

import asyncio
from typing import Any


class Clock:
    """Time passes only when a reader waits for data that never comes."""

    def __init__(self, loop: Any):
        self.t = 1000.0
        loop.time = lambda: self.t


class MemReader(asyncio.StreamReader):
    """Gets the next segment when (and not before) all earlier data is consumed."""

    def __init__(self, segments: list, loop: Any, clock: Clock, stall: bool = False):
        super().__init__(limit=2**26, loop=loop)
        self.segments, self.stall, self.clock = list(segments), stall, clock

    async def _wait_for_data(self, func_name: str) -> None:
        if self.segments:
            self.feed_data(self.segments.pop(0))
        elif self.stall:
            self.clock.t += 10**6
            await asyncio.Event().wait()
        else:
            self.feed_eof()
        await asyncio.sleep(0)

    @property
    def rest(self) -> bytes:
        return bytes(self._buffer) + b"".join(self.segments)  # type: ignore[attr-defined]


class MemWriter:
    def __init__(self) -> None:
        self.data = bytearray()
        self.undrained = 0
        self.closed = False

    def write(self, b: Any) -> None:
        if self.closed:
            raise ConnectionResetError("closed")
        self.data += bytes(b)
        self.undrained += len(bytes(b))

    def writelines(self, bs: Any) -> None:
        for b in bs:
            self.write(b)

    async def drain(self) -> None:
        self.undrained = 0

    def close(self) -> None:
        self.closed = True

    def is_closing(self) -> bool:
        return self.closed

    async def wait_closed(self) -> None:
        pass

    def can_write_eof(self) -> bool:
        return True

    def write_eof(self) -> None:
        pass

    def get_extra_info(self, *_: Any, **__: Any) -> Any:
        from unittest.mock import MagicMock

        return MagicMock()


def run(make: Any) -> Any:
    """runs the coroutine make(loop, clock)"""
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(make(loop, Clock(loop)))
    finally:
        asyncio.set_event_loop(None)
        loop.close()


class Idle(Exception):
    """everything waits, and nothing will ever happen"""


class VirtualTime:
    """An event loop in which time passes only when nothing else can happen."""

    def __init__(self) -> None:
        self.loop = asyncio.new_event_loop()
        self.t = 1000.0
        self.loop.time = lambda: self.t  # type: ignore[method-assign]
        sel = self.loop._selector  # type: ignore[attr-defined]
        real = sel.select

        def select(timeout: Any = None) -> Any:
            got = real(0)
            if not got:
                if timeout is None:
                    raise Idle()
                self.t += max(timeout, 0)
            return got

        sel.select = select

    def run(self, coro: Any) -> Any:
        asyncio.set_event_loop(self.loop)
        return self.loop.run_until_complete(coro)

    def settle(self) -> None:
        """lets everything that runs in the background finish"""

        async def rest() -> None:
            me = asyncio.current_task()
            while others := [t for t in asyncio.all_tasks() if t is not me]:
                await asyncio.wait(others, timeout=10**5)

        self.run(rest())

    def close(self) -> None:
        for t in asyncio.all_tasks(self.loop):
            t.cancel()
        try:
            self.loop.run_until_complete(asyncio.sleep(0))
        except Exception:  # pylint: disable=broad-except
            pass
        asyncio.set_event_loop(None)
        self.loop.close()


class PipeWriter(MemWriter):
    def __init__(self, peer: Any):
        super().__init__()
        self.peer = peer

    def write(self, b: Any) -> None:
        super().write(b)
        if not self.peer._eof and bytes(b):
            self.peer.feed_data(bytes(b))

    def close(self) -> None:
        if not self.closed:
            self.closed = True
            self.peer.feed_eof()
