"""Running the command line tools of the code under test inside this process"""
import contextlib
import importlib
import io
import sys


class Result:
    def __init__(self, out, err, error, code):
        self.out, self.err, self.error, self.code = out, err, error, code

    @property
    def ok(self):
        return self.error is None and self.code in (None, 0)

    def __repr__(self):
        return f"<exit {self.code}, error {self.error!r}, output {self.out[-200:]!r}, {self.err[-200:]!r}>"


def run(tool, *args):
    """main() of eventio.scripts.<tool> with the given arguments"""
    m = importlib.import_module("eventio.scripts." + tool)
    old = sys.argv
    out, err = io.StringIO(newline=""), io.StringIO()
    error = code = None
    sys.argv = ["eventio_" + tool] + [str(a) for a in args]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            m.main()
    except SystemExit as e:
        code = e.code
    except Exception as e:
        error = e
    finally:
        sys.argv = old
    return Result(out.getvalue(), err.getvalue(), error, code)
