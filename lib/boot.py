"""Import /repo's Python sources together with C extensions built elsewhere.

``install(repo, extdir)`` puts ``repo`` on sys.path and registers a finder that
serves every compiled module found below ``extdir`` (a freshly built copy of the
package tree) under its dotted name, so that the Python code under test is the
working tree itself and the native code is always rebuilt from that tree.
"""
import importlib.machinery
import importlib.util
import os
import sys


class _ExtFinder(object):
    def __init__(self, mapping):
        self.mapping = mapping

    def find_spec(self, fullname, path=None, target=None):
        fn = self.mapping.get(fullname)
        if fn is None:
            return None
        return importlib.util.spec_from_file_location(fullname, fn)


def install(repo, extdir):
    mapping = {}
    suffixes = importlib.machinery.EXTENSION_SUFFIXES
    for dirpath, _, files in os.walk(os.path.join(extdir, 'redmapper')):
        rel = os.path.relpath(dirpath, extdir).replace(os.sep, '.')
        for f in files:
            for suf in sorted(suffixes, key=len, reverse=True):
                if f.endswith(suf):
                    mapping[rel + '.' + f[:-len(suf)]] = os.path.join(dirpath, f)
                    break
    ver = os.path.join(extdir, 'redmapper', '_version.py')
    if os.path.isfile(ver):
        mapping['redmapper._version'] = ver
    sys.meta_path.insert(0, _ExtFinder(mapping))
    if repo in sys.path:
        sys.path.remove(repo)
    sys.path.insert(0, repo)
    return mapping
