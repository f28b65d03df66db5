import sys, os, argparse
sys.dont_write_bytecode = True
sys.path.insert (0, os.path.dirname (os.path.abspath (__file__)))
from harness import core

def main ():
    args = sys.argv[1:]
    prop = args.pop (0)
    tier = 'quick'
    if args and args[0] in ('quick', 'thorough'):
        tier = args.pop (0)
    elif os.environ.get ('VERIF_TIER') in ('quick', 'thorough'):
        tier = os.environ['VERIF_TIER']
    seed = int (os.environ.get ('VERIF_SEED') or '1')
    core.bootstrap ()
    if args and args[0] == '--shard':
        i, n, out, seconds = args[1:5]
        return core.shardMain (prop, tier, seed, int (i), int (n), out, float (seconds))
    if args and args[0] == '--replay':
        return core.replayMain (prop, os.path.abspath (args[1]))
    return core.main (prop, tier, seed)

sys.exit (main ())
