# -*- coding: utf-8 -*-
"""The repository's sample files (inputs only)."""
import glob
import os

from .common import REPO


def files():
    d = os.path.join(REPO, 'tests', 'test_files')
    return sorted(glob.glob(os.path.join(d, '*.avb')) + glob.glob(os.path.join(d, 'retimes', '*.avb')))


_cache = {}


def data(path):
    if path not in _cache:
        with open(path, 'rb') as f:
            _cache[path] = f.read()
    return _cache[path]


def small(limit=200000):
    return [p for p in files() if os.path.getsize(p) <= limit]
