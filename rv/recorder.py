"""A model for the bootstrap that writes down every call it receives.

Row 0 of the data identifies the respondent, so a log entry tells exactly
which respondents were drawn. Importable in spawned workers.
"""
import json
import os
import time
import zlib

import numpy as np


class Injected(Exception):
    pass


FAILURES = {e.__name__: e for e in (Injected, ValueError, np.linalg.LinAlgError, RuntimeError, IndexError, KeyError,
                                    FloatingPointError, ZeroDivisionError, ArithmeticError, TypeError, MemoryError,
                                    NotImplementedError, OSError)}


class Recorder:
    def __init__(self, path, shape="vector", inner=None, salt=None, fail=None, error="Injected"):
        self.path, self.shape, self.inner, self.salt, self.fail, self.error = path, shape, inner, salt, fail, error

    def __call__(self, dataset, options=None):
        ids = np.asarray(dataset)[0].astype(np.int64)
        key = zlib.crc32(ids.tobytes())
        if self.salt is not None:
            time.sleep((zlib.crc32(ids.tobytes(), self.salt) % 100) / 1000.0)
        if self.inner is not None:
            result = self.inner(np.asarray(dataset)[1:], options=options)
        else:
            rng = np.random.default_rng(key)
            n = dataset.shape[0] - 1
            k = {"vector": (n,), "matrix": (n, 3), "padded": (n, 3), "rare": (n, 3), "scalar": (n,)}[self.shape]
            difficulty = rng.normal(size=k) + np.asarray(dataset)[1:].mean()
            if self.shape == "padded":
                difficulty[::2, 2] = np.nan
            if self.shape == "rare":                       # a threshold that some resamples do not have
                for j in range(0, n, 2):
                    if np.asarray(dataset)[1 + j].max() < 9 or not (ids == 0).any():
                        difficulty[j, 2] = np.nan
            disc = rng.uniform(.3, 3, n)
            result = {"Difficulty": difficulty, "Discrimination": float(disc[0]) if self.shape == "scalar" else disc,
                      "Extra": n}
        entry = {"pid": os.getpid(), "ids": ids.tolist(), "crc": zlib.crc32(np.ascontiguousarray(dataset).tobytes()),
                 "dtype": str(dataset.dtype), "options": describe(options),
                 "difficulty": np.asarray(result["Difficulty"]).tolist(),
                 "discrimination": np.asarray(result["Discrimination"]).tolist()}
        line = (json.dumps(entry) + "\n").encode()
        fd = os.open(self.path, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
        try:
            os.write(fd, line)              # one write: entries of different processes do not mix
        finally:
            os.close(fd)
        if self.fail is not None and int(ids[self.fail[0]]) % self.fail[1] == 0:
            raise FAILURES[self.error]("injected model failure")
        return result


def describe(options):
    out = {}
    for key, value in sorted((options or {}).items()):
        out[key] = float(value(0.3)) if callable(value) else jsonlike(value)
    return out


def jsonlike(value):
    if isinstance(value, (list, tuple)):
        return [jsonlike(v) for v in value]
    return value.item() if isinstance(value, np.generic) else value


def read(path):
    try:
        with open(path) as handle:
            return [json.loads(line) for line in handle]
    except FileNotFoundError:
        return []


def crc_of(dataset, ids):
    return zlib.crc32(np.ascontiguousarray(np.asarray(dataset)[:, ids]).tobytes())
