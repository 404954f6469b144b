"""Runs the command line of meshmagick in the process of the check."""
import contextlib
import io
import sys
import warnings


def run(*argv):
    """(standard output, exception or None)"""
    from meshmagick.cli import main
    old = sys.argv
    sys.argv = ['meshmagick'] + [str(a) for a in argv]
    out, err = io.StringIO(), io.StringIO()
    fault = None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                main()
            except SystemExit as e:
                if e.code not in (None, 0):
                    fault = e
            except Exception as e:
                fault = e
    finally:
        sys.argv = old
    return out.getvalue(), fault
