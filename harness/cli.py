"""The command line in this process: argv in, exit code and output out"""

import contextlib
import io
import re
import sys

from aas_test_engines import __main__ as cli

ANSI = re.compile(r"\x1b\[[0-9;]*m")


def run(argv):
    """-> (exit code, stdout, stderr, exception); the exit code is the one the interpreter would end with"""
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ["aas_test_engines"] + list(argv)
    exc = None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            cli.main()
        code = 0
    except SystemExit as e:
        code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
    except Exception as e:
        code, exc = 1, e
    finally:
        sys.argv = old
    return code & 0xFF, out.getvalue(), err.getvalue(), exc


def dumped(result):
    """what the library prints for a result"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        result.dump()
    return out.getvalue()
