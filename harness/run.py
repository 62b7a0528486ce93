import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core


def main():
    prop = sys.argv[1]
    try:
        core.import_lib()
    except Exception as ex:
        # the library does not even import: every property is broken
        c = core.Check(prop)
        c.viol.append(("import", 0, 0, "library cannot be imported: " + repr(ex), [{"e": "import", "msg": repr(ex)}]))
        sys.exit(c.finish())
    try:
        import checks

        c = core.Check(prop)
        checks.CHECKS[prop](c)
        sys.exit(c.finish())
    except SystemExit:
        raise
    except BaseException:
        core.abort(traceback.format_exc())


main()
