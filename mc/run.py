import os
import sys


def main():
    prop = sys.argv[1]
    repo = os.environ.get('VERIF_REPO', '/repo')
    import CTL
    here = os.path.realpath(CTL.__file__)
    if not here.startswith(os.path.realpath(repo) + '/src/'):
        print('wrong CTL imported: ' + here)
        return 2
    from mc import core
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        return core.replay(prop, sys.argv[3])
    return core.main(prop, os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1')))


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.exit(code)
