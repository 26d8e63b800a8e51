import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF, REPO]
sys.setrecursionlimit(10000)


def main(argv):
    import peyl
    assert os.path.realpath(peyl.__file__).startswith(os.path.realpath(REPO) + os.sep), peyl.__file__
    from vlib import core
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if argv and argv[0] == '--replay':
        rep = json.load(open(argv[1]))
        mod = importlib.import_module('checks.' + rep['property'].lower())
        if hasattr(mod, 'prepare'):
            mod.prepare(rep['tier'])
        for f in mod.families(rep['tier']):
            if f.name == rep['family']:
                res = core.run_chunk(f, f.chunks[rep['chunk_index']])
                v = res['violation']
                if v:
                    print(v['message'], v['trace'], sep='\n')
                    print(f"VIOLATION property={rep['property']} replay={argv[1]}")
                    return 1
                print('the recorded chunk holds now')
                return 0
        print('setup:', rep['message'])
        return 0
    prop = argv[0].upper()
    only = None
    for a in argv[1:]:
        if a in ('quick', 'thorough'):
            tier = a
        else:
            only = (only or []) + [a]
    mod = importlib.import_module('checks.' + prop.lower())
    return core.main(mod, tier, seed, only=only)


if __name__ == '__main__':
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
