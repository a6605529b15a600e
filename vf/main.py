"""Runs one check: python -m vf.main <property id> [--seed N] [--tier T]."""

import importlib
import sys
import traceback

from . import common


def main():
    prop = sys.argv[1]
    module = importlib.import_module(f'vf.checks.{prop.lower()}')
    run = common.Run(prop)
    try:
        module.main(run)
    except common.BuildError as e:
        run.violation(str(e))
    except common.Inconclusive as e:
        run.notes.append(str(e))
        run.failed_jobs += 1
    except Exception:
        run.notes.append(traceback.format_exc()[-2000:])
        run.failed_jobs += 1
    return run.finish(getattr(module, 'MIN_CASES', 1))


sys.exit(main())
