import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault('HYPOTHESIS_NO_PLUGINS', '1')
# Hypothesis lives in the tooling venv; appended last so that everything the
# package under test needs comes from its own environment.
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

from . import harness                      # noqa: E402


def main(argv):
    pid = argv[0]
    from .props import load
    prop = load(pid)
    if len(argv) > 1 and argv[1] == '--worker':
        harness.worker(prop, int(argv[2]), int(argv[3]), argv[4])
        return 0
    if len(argv) > 1 and argv[1] == '--replay':
        return harness.replay(prop, argv[2])
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return harness.parent(prop, tier, seed)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
