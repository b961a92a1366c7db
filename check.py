#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decide one property on the current tree of /repo."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    from sx.report import Check
    from sx.facts import Broken
    ck = None
    try:
        ck = Check(pid, tier)
        m = importlib.import_module('checks.' + pid.lower())
        n = m.run(ck)
        return ck.finish(n or 1)
    except Broken as e:
        if ck is not None and ck.obs:
            # part of the rules could be decided: the rest is reported as undecided
            ck.undecided('analysis', 'checks/%s.py' % pid.lower(), str(e))
            return ck.finish(1)
        print('analysis broken: %s' % e)
        return 2
    except Exception:
        tb = traceback.format_exc()
        if ck is not None and ck.obs:
            ck.undecided('analysis', 'checks/%s.py' % pid.lower(), tb[-300:])
            return ck.finish(1)
        print('internal error:\n' + tb[-3000:])
        return 3


if __name__ == '__main__':
    import threading
    threading.stack_size(512 << 20)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
