"""Child of the C18 check: runs the models given on standard input, prints what was observed."""
import json
import sys

from . import core, worlds as W


def main():
    models = json.loads(sys.stdin.read())
    out = []
    for spec in models:
        core.reset_globals(1)
        with core.quiet():
            try:
                out.append(W.observe(spec, 5))
            except core.HarnessError:
                raise
            except Exception as e:
                out.append([[], {}, "%s: %s" % (type(e).__name__, e)])
    print(json.dumps(out))


main()
