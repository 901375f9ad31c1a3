#!/usr/bin/env python3
"""check.py ID: decide property ID on the working tree of /repo."""
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True

from common import Check, CheckError, prune_cache  # noqa: E402


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "--setup":
        import setup
        return setup.main()
    pid = sys.argv[1]
    import properties
    if len(sys.argv) > 4 and sys.argv[2] == "--replay-spec":
        return properties.replay(pid, sys.argv[3], sys.argv[4])
    fn = properties.CHECKS.get(pid)
    if fn is None:
        print("no check for %s" % pid)
        return 2
    chk = Check(pid)
    try:
        fn(chk)
        return chk.finish()
    except CheckError as e:
        print("ERROR: the check of %s could not be completed: %s" % (pid, e))
        if chk.violations:  # what was found before that stands
            return chk.finish()
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        chk.cleanup()
        prune_cache()


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
