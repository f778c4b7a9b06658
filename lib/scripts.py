"""Runs the command line tools in /repo/scripts in this process."""

import contextlib
import io
import os
import sys

import vf

_CODE = {}
SCRIPTS = os.path.join(vf.REPO, "scripts")


class Result:
    """Result of running a command line tool."""

    def __init__(self, status, text, errors):
        self.status = status
        self.text = text
        self.errors = errors


def run(name, *arguments):
    """Runs a script as the main program: returns its exit status and output.

    Exceptions that escape the script are raised.
    """
    path = os.path.join(SCRIPTS, f"{name:s}.py")
    code = _CODE.get(name)
    if code is None:
        with open(path, "rb") as file_object:
            code = compile(file_object.read(), path, "exec")
        _CODE[name] = code
    output = io.StringIO()
    errors = io.StringIO()
    saved = (sys.argv, sys.path[:])
    sys.argv = [path] + [str(argument) for argument in arguments]
    status = 0
    try:
        with contextlib.redirect_stdout(output), contextlib.redirect_stderr(errors):
            try:
                exec(code, {"__name__": "__main__", "__file__": path})
            except SystemExit as exception:
                status = exception.code
    finally:
        sys.argv = saved[0]
        sys.path[:] = saved[1]
    return Result(status or 0, output.getvalue(), errors.getvalue())
