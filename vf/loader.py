# -*- coding: utf-8 -*-
"""Imports avb from /repo/src: mode 'pure' blocks the native extension, mode 'ext' loads the
given build of it (and fails loudly when the library does not pick it up)."""
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get('VF_REPO', '/repo')


class _Finder(object):
    def __init__(self, so):
        self.so = so

    def find_spec(self, name, path=None, target=None):
        if name != 'avb._ext':
            return None
        if self.so is None:
            raise ImportError('native extension blocked')
        return importlib.util.spec_from_file_location(
            name, self.so, loader=importlib.machinery.ExtensionFileLoader(name, self.so))


def load(mode, so=None):
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, 'src')
    if src not in sys.path:
        sys.path.insert(0, src)
    sys.meta_path.insert(0, _Finder(so if mode == 'ext' else None))
    import avb
    import avb.file
    if not os.path.abspath(avb.__file__).startswith(src):
        raise RuntimeError('avb imported from %s' % avb.__file__)
    if mode == 'ext' and 'avb._ext' not in sys.modules:
        raise RuntimeError('the native extension did not load')
    return avb
