"""Event reporting of the Python harnesses (the same format as cpp/vcommon.hpp)."""
import hashlib
import json
import os
import sys
import traceback
import numpy as np


class Skip(Exception):
    """The case ends here (a violation was already reported)."""


class Reporter:
    def __init__(self):
        self.f = open(os.environ["QDD_EVENTS"], "a", buffering=1) if "QDD_EVENTS" in os.environ else sys.__stdout__
        self.case = os.open(os.environ["QDD_CASE"], os.O_CREAT | os.O_WRONLY, 0o644) if "QDD_CASE" in os.environ else -1
        self.counters, self.hashes, self.nviol, self.cur = {}, set(), 0, ("", 0, 0)
        self.speak = True

    def _put(self, d):
        self.f.write(json.dumps(d) + "\n")
        self.f.flush()

    def begin(self, mode, seed, index):
        self.cur = (mode, seed, index)
        if self.case >= 0 and self.speak:
            os.pwrite(self.case, ("%-40s %20d %12d\n" % (mode, seed, index)).encode(), 0)

    def violation(self, key, text):
        self.nviol += 1
        if self.nviol <= 40:
            self._put(dict(e="viol", key=key, mode=self.cur[0], seed=self.cur[1], index=self.cur[2], text=text[:3500]))

    def error(self, text):
        self._put(dict(e="error", text=text[:3500]))

    def check(self, ok, key, text):
        self.count("checks")
        if not ok:
            self.violation(key, text() if callable(text) else text)
        return bool(ok)

    def need(self, ok, key, text):
        """A check without which the rest of the case makes no sense."""
        if not self.check(ok, key, text):
            raise Skip()

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + int(n)

    def seen(self, *what):
        h = hashlib.sha256(repr(what).encode()).digest()
        self.hashes.add(int.from_bytes(h[:6], "little"))

    def sample(self, text):
        self._put(dict(e="sample", text=text[:400]))

    def finish(self, mode):
        self._put(dict(e="done", mode=mode, distinct=len(self.hashes), violations=self.nviol, counters=self.counters,
                       hashes=list(self.hashes)[:20000]))


R = Reporter()
LN = 32.0                                                     # false-alarm probability below e^-31 per comparison


def bernstein(got, n, p):
    p = min(1.0, max(0.0, p))
    return abs(got - n * p) <= np.sqrt(2 * n * p * (1 - p) * LN) + 2 * LN / 3 + 1


def main(modes, stop=20):
    if len(sys.argv) < 5 or sys.argv[1] not in modes:
        print("usage: harness mode seed start count", file=sys.stderr)
        sys.exit(2)
    mode, seed, start, cnt = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    salt = int.from_bytes(hashlib.sha256(mode.encode()).digest()[:6], "little")
    for i in range(start, start + cnt):
        R.begin(mode, seed, i)
        try:
            modes[mode](np.random.default_rng([salt, seed, i]), i)
        except Skip:
            pass
        except (MemoryError, OSError, KeyboardInterrupt):
            R.error(traceback.format_exc())
            sys.exit(2)
        except Exception:                                      # noqa: BLE001 - the code under test raised, or its answer has no shape
            R.violation("exception:" + mode, traceback.format_exc()[-3000:])
        R.count("cases")
        if R.nviol > stop:
            break
    return mode
