"""Shared helpers of the checks (real, uninstrumented code)."""
import copy
import sys
import io
import contextlib

from pydv import instrument

SHELLS = ('bash', 'fish', 'zsh')


def real(name):
    return instrument.real(name)


def commandline(dictionaries):
    return real('dictionary_source').dictionaries_to_commandline(copy.deepcopy(dictionaries))


def config(**kw):
    c = real('config').Config()
    for k, v in kw.items():
        getattr(c, k)(v)
    return c


def generate(shell, cmdline, conf=None):
    if isinstance(cmdline, list):
        cmdline = commandline(cmdline)
    with quiet():
        return real(shell).generate_completion(cmdline, conf)


@contextlib.contextmanager
def quiet():
    old = sys.stderr
    sys.stderr = io.StringIO()
    try:
        yield sys.stderr
    finally:
        sys.stderr = old
