"""Developer tool: time the chunks of one family.  python tools/timechunks.py C16 offers [tier]"""
import importlib, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.environ.get('VERIF_REPO', '/repo')]
from concurrent.futures import ProcessPoolExecutor
from vlib import core
sys.setrecursionlimit(10000)
mod = importlib.import_module('checks.' + sys.argv[1].lower())
tier = sys.argv[3] if len(sys.argv) > 3 else 'quick'
if hasattr(mod, 'prepare'):
    mod.prepare(tier)
fam = next(f for f in mod.families(tier) if f.name == sys.argv[2])
core._FAMS = [fam]
if __name__ == '__main__':
    import multiprocessing as mp
    with ProcessPoolExecutor(8, mp_context=mp.get_context('fork')) as ex:
        for i, (_, ci, res) in enumerate(ex.map(core._worker, [0] * len(fam.chunks), range(len(fam.chunks)))):
            print(f"{res['wall']:7.1f}s states={res['n_states'] + len(res['states'])} steps={res['transitions']} {fam.chunks[ci]} {res['violation']['message'][:80] if res['violation'] else ''}", flush=True)
