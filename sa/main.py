"""python3 -m sa.main <property id> [repo]"""
import importlib
import multiprocessing
import os
import sys
import threading
import traceback

from .report import Broken, Ctx


LIMIT = 780     # seconds; what is not decided by then stays undecided


def main(ctx):
    sys.setrecursionlimit(20000)
    prop = ctx.prop
    error = None
    try:
        mod = importlib.import_module('sa.checks.' + prop.lower())
        mod.run(ctx)
    except Broken as e:
        error = str(e)
    except SyntaxError as e:
        error = 'source does not parse: %s' % e
    except Exception:
        # the analysis itself gave up: no verdict on the rest
        if os.environ.get('SA_DEBUG'):
            raise
        traceback.print_exc()
        ctx.undecided('rest of the analysis', traceback.format_exc().splitlines()[-1])
    return ctx.finish(error)


if __name__ == '__main__':
    threading.stack_size(512 * 1024 * 1024)
    ctx = Ctx(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else '/repo')
    rc = []
    t = threading.Thread(target=lambda: rc.append(main(ctx)), daemon=True)
    t.start()
    t.join(LIMIT)
    if t.is_alive():
        ctx.undecided('rest of the analysis', 'not finished after %d s' % LIMIT)
        rc.append(ctx.finish())
        for p in multiprocessing.active_children():
            p.terminate()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
