#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [quick|thorough] [entry-regex]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.abspath(__file__)))


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    from engine import runner
    import specs
    s = specs.SPECS[prop]
    units = s['units']
    if len(sys.argv) > 3:
        for u in units:
            u.only = sys.argv[3]
    if len(sys.argv) > 4:
        for u in units:
            u.configs = [c for c in u.configs if c in sys.argv[4].split(',')]
    c = runner.Check(prop, units, tier, s.get('level', 'model_checking'), specs.COMMON_ASSUMPTIONS + s['assumptions'],
                     s['bounds'])
    return c.run()


if __name__ == '__main__':
    sys.exit(main())
