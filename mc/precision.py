"""Runs functions of a check in a process with another floating point precision or locale."""

import os
import pickle
import struct
import subprocess
import sys

_child = {}
LOCALES = {'ascii': {'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, 'utf-8': {'PYTHONUTF8': '1'}}


def _read(stream):
    header = stream.read(8)
    if len(header) < 8:
        raise EOFError('the process has ended')
    return pickle.loads(stream.read(struct.unpack('<Q', header)[0]))


def _write(stream, value):
    data = pickle.dumps(value)
    stream.write(struct.pack('<Q', len(data)) + data)
    stream.flush()


def call(precision, module, function, *args):
    """Result of module.function(*args) in the process of the given precision (or of the given locale, in double precision)."""
    key = os.getpid(), precision
    if key not in _child:
        environment = dict(os.environ)
        environment.pop('THEANO_FLAGS', None)
        if precision in LOCALES:
            for name in [n for n in environment if n.startswith('LC_') or n in ('LANG', 'LANGUAGE', 'PYTHONIOENCODING')]:
                del environment[name]
            environment.update(LOCALES[precision], LC_ALL='C')
        _child[key] = subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'mc.precision', precision],
                                       cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=environment,
                                       stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    process = _child[key]
    try:
        _write(process.stdin, (module, function, args))
        kind, value = _read(process.stdout)
    except BaseException:
        # the answer may still come
        process.kill()
        process.wait()
        del _child[key]
        raise
    if kind == 'error':
        raise RuntimeError(value)
    return value


def main():
    import importlib
    import traceback
    source, target = sys.stdin.buffer, os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    from mc import env
    env.prepare(os.environ['MC_SCRATCH'], precision='float64' if sys.argv[1] in LOCALES else sys.argv[1])
    while True:
        try:
            module, function, args = _read(source)
        except EOFError:
            os._exit(0)
        try:
            answer = 'value', getattr(importlib.import_module(module), function)(*args)
        except Exception as error:
            where = traceback.extract_tb(error.__traceback__)[-1]
            answer = 'error', '{}: {} ({}:{})'.format(type(error).__name__, error, os.path.basename(where.filename), where.lineno)
        _write(target, answer)


if __name__ == '__main__':
    main()
