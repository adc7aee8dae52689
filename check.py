#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]

Decides one property on the working tree of /repo.
Exit 0: held on everything explored.  Exit 1 (with a VIOLATION line): violated."""
import os, sys
PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
if os.path.realpath(sys.executable) != os.path.realpath(PY) or "VERIF_CHILD" not in os.environ:
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    os.environ["VERIF_CHILD"] = "1"
    os.environ.setdefault("PYTHONHASHSEED", "0")
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, os.path.join(HERE, "harness"))
import common


def broken_tree(pid, why):
    """The package cannot even be imported: every property is violated."""
    ck = common.Check(pid)
    ck.viol("import", why)
    return ck


def main():
    pid = sys.argv[1]
    import registry
    fn = registry.CHECKS[pid]
    try:
        common.import_repo()
    except Exception:
        return broken_tree(pid, common.short_tb()).finish()
    try:
        ck = fn(pid)
    except (common.TLCError, MemoryError, OSError):
        import traceback
        traceback.print_exc()
        return 2
    except Exception:
        # the code under test gave something no check could make sense of
        import traceback
        traceback.print_exc()
        ck = common.Check(pid)
        ck.viol("exception", traceback.format_exc()[-1500:])
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
