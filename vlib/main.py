import argparse
import ctypes
import importlib
import json
import os
import signal
import sys
import traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
        default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--only', action='append')
    ap.add_argument('--scale', type=float, default=1.)
    args = ap.parse_args()
    from vlib import harness, py2load
    py2load.install()
    harness._hypothesis()
    pid = args.property.upper()
    try:
        module = importlib.import_module('checks.' + pid.lower())
        prop = module.PROP
    except Exception as e:
        traceback.print_exc()
        src = harness.SRC + os.sep
        if any(os.path.realpath(f).startswith(src)
                for f in harness._frames(e)) or (
                isinstance(e, SyntaxError) and str(e).startswith(
                    py2load.SRC)):
            # A module of the code under test cannot even be imported.
            path = os.path.join(harness.ROOT, 'replays')
            os.makedirs(path, exist_ok=True)
            path = os.path.join(path, pid + '-import.json')
            with open(path, 'w') as f:
                json.dump({'property': pid, 'sub': 'import', 'case': None,
                    'message': harness.describe(e)}, f)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        return 2
    if args.replay:
        return harness.replay(prop, args.replay)
    if args.scale != 1.:
        for s in prop.subs:
            s.quick = max(1, int(s.quick * args.scale))
            s.thorough = max(1, int(s.thorough * args.scale))
    return harness.run_property(prop, args.tier, args.seed, jobs=args.jobs,
        budget=args.budget, only=args.only)


def adopt():
    """Become the parent of processes which lose theirs."""
    try:
        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)
    except Exception:
        pass


def bury():
    """End the processes which this run left behind."""
    me = os.getpid()
    for _ in range(5):
        mine = []
        for p in os.listdir('/proc'):
            try:
                with open('/proc/%d/stat' % int(p)) as f:
                    s = f.read().rsplit(')', 1)[1].split()
                if int(s[1]) == me:
                    mine.append(int(p))
            except (ValueError, OSError, IndexError):
                continue
        for p in mine:
            try:
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
            except OSError:
                pass
        if not mine:
            break


if __name__ == '__main__':
    # sys.exit alone would wait for stray threads of the code under test.
    adopt()
    try:
        code = main()
    except SystemExit as e:
        code = e.code
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    bury()
    os._exit(code if isinstance(code, int) else 2)
