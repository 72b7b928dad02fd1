"""Helpers for the case files.  Imports all of licant."""
import importlib
import os
import sys

REPO = os.environ.get("LICANT_REPO", "/repo")
for _m in ("core", "solver", "make", "util", "cache", "cli", "modules", "cxx_modules", "cxx_make", "libs", "licant_libs", "scripter", "install"):
    try:
        importlib.import_module("licant." + _m)
    except BaseException as e:
        print("import of licant.%s failed: %r" % (_m, e), file=sys.stderr)

import licant  # noqa: E402

assert os.path.realpath(licant.__file__).startswith(os.path.realpath(REPO) + os.sep), licant.__file__


class HarnessError(Exception):
    harness = True


def exits(f, *a, **k):
    """(ended the program, exit code or None, value)"""
    try:
        return False, None, f(*a, **k)
    except SystemExit as e:
        return True, e.code, None


def error_status(code):
    """Is this SystemExit code an error exit status?"""
    if code is None:
        return False
    if isinstance(code, int):
        return code & 0xFF != 0
    return True


def fresh_core():
    import licant.core
    c = licant.core.Core()
    return c
