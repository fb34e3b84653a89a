"""Entry point: python -m mc.main P01 [--tier quick|thorough] | --replay FILE"""

import argparse
import glob
import importlib
import json
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def module_for(prop):
    matches = glob.glob(os.path.join(HERE, prop.lower() + '_*.py'))
    if len(matches) != 1:
        sys.exit('no check for property ' + prop)
    return 'mc.' + os.path.basename(matches[0])[:-3]


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property', nargs='?')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                        choices=['quick', 'thorough'])
    parser.add_argument('--replay')
    parser.add_argument('--jobs', type=int, default=8)
    args = parser.parse_args()

    scratch = tempfile.mkdtemp(prefix='mc-')
    os.environ['MC_SCRATCH'] = scratch
    pid = os.getpid()
    try:
        from mc import env
        env.prepare(scratch)
        from mc import core
        if args.replay:
            with open(args.replay) as handle:
                data = json.load(handle)
            module = importlib.import_module(data['module'])
            ctx = core.Context(module, args.tier)
            ok = ctx.run(data['case'])
            print(json.dumps(data['case'], indent=1))
            for message, _ in ctx.failures:
                print('reproduced: ' + message)
            return 0 if ok else 1
        module = importlib.import_module(module_for(args.property))
        seed = int(os.environ.get('VERIF_SEED', '1'))
        return core.run_check(
            module, args.tier, seed,
            os.path.join(VERIF, 'evidence', module.PROPERTY + '.json'),
            os.path.join(VERIF, 'replays'), args.jobs)
    finally:
        if os.getpid() == pid:
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
