#!/opt/venv/bin/python
'''
check.py PROPERTY      runs the check of one property (VERIF_TIER, VERIF_SEED)
'''
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
os.environ['OPENBLAS_NUM_THREADS'] = '1'
os.environ['OMP_NUM_THREADS'] = '1'
sys.path.insert(0, os.path.join(HERE, 'harness'))
import core  # noqa: E402


def main():
    prop = sys.argv[1]
    import registry
    entry = registry.CHECKS[prop]
    check = core.Check(prop, entry['level'], entry['technique'])
    try:
        entry['run'](check)
    except core.MachineryError as e:
        if check.violations:
            return check.finish()
        print('ERROR: ' + str(e))
        return 2
    except Exception as e:
        traceback.print_exc()
        if check.violations:
            return check.finish()
        try:
            # raised by the code under test, on a request that is in order
            check.violation(core.caught(e)['error'], prop)
        except core.MachineryError:
            return 2
    return check.finish()


if __name__ == '__main__':
    sys.exit(main())
