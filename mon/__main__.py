import sys


def main():
    if len(sys.argv) < 2:
        print('usage: python -m mon C01 [quick|thorough] [--replay FILE]')
        return 2
    name = sys.argv[1]
    from . import checks_make
    mods = [checks_make]
    for m in ('checks_match', 'checks_parse', 'checks_cli', 'checks_run',
              'checks_iso', 'checks_fault',
              'checks_mem', 'checks_rule'):
        try:
            mods.append(__import__('mon.' + m, fromlist=['x']))
        except ModuleNotFoundError as e:
            if e.name != 'mon.' + m:
                raise
    for m in mods:
        cls = getattr(m, name, None)
        if cls is not None:
            from .runner import main as run
            return run(cls(), sys.argv[2:])
    print('unknown property', name)
    return 2


if __name__ == '__main__':
    sys.exit(main())
