#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: run one property's monitors.
Exit 0: held on everything observed; 1: violated; 3: the check itself failed."""
import os
import sys
import traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vf          # noqa: E402
import checks      # noqa: E402


def main():
    prop = sys.argv[1]
    c = vf.Check(prop, sys.argv[2] if len(sys.argv) > 2 else None)
    try:
        c.stage()
        checks.CHECKS[prop](c)
        return c.finish()
    except vf.HarnessError as e:
        # a violation already observed stands, whatever happened to the rest
        if c.viol:
            try:
                rc = c.finish()
                if rc == 1:
                    print("note: part of the check did not run: %s" % str(e)[:500])
                    return 1
            except vf.HarnessError:
                pass
        print("CHECK-ERROR property=%s: %s" % (prop, e))
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        if not os.environ.get("VF_KEEP"):
            c.cleanup()


sys.exit(main())
