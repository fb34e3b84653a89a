"""Runs a theanolm subcommand in this process, the way bin/theanolm does."""

import argparse
import contextlib
import importlib
import io
import os


class Unclosed(io.BytesIO):
    """Standard output, which a command may close."""

    def close(self):
        pass


def run(command, argv):
    """Returns what the command printed."""
    module = importlib.import_module('theanolm.commands.' + command)
    parser = argparse.ArgumentParser()
    module.add_arguments(parser)
    raw = Unclosed()
    out = io.TextIOWrapper(raw, encoding='utf-8', write_through=True)
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        args = parser.parse_args([str(a) for a in argv])
        try:
            getattr(module, command)(args)
        finally:
            out.flush()
            for value in vars(args).values():
                for item in value if isinstance(value, list) else [value]:
                    if hasattr(item, 'close') and getattr(item, 'name', None) not in ('<stdout>', '<stdin>'):
                        try:
                            item.close()
                        except Exception:
                            pass
    return raw.getvalue().decode('utf-8')


def scratch(name):
    return os.path.join(os.environ['MC_SCRATCH'], '{}-{}'.format(os.getpid(), name))


def write(name, text):
    path = scratch(name)
    with open(path, 'w', encoding='utf-8') as handle:
        handle.write(text)
    return path


def model(net):
    """Model file of a network."""
    import h5py
    path = scratch('model-{}.h5'.format(id(net)))
    if not os.path.exists(path):
        with h5py.File(path, 'w') as state:
            net.vocabulary.get_state(state)
            net.get_state(state)
    return path
