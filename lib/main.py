"""Entry point: main.py <property id>"""
import sys
import time
import traceback
import env
import checks


def main():
    prop = sys.argv[1]
    ctx = env.Ctx(prop)
    f = checks.CHECKS[prop]
    try:
        f(ctx)
    except env.BuildFailure as e:
        # the tree does not compile: nothing was decided
        print('ERROR: ' + str(e))
        return 2
    except env.CheckError as e:
        print('ERROR: ' + str(e))
        return 2
    except Exception as e:
        # the analysis met code it has no model for: what was found so far counts, the rest is undecided
        traceback.print_exc()
        ctx.undecided('analysis stopped: %s: %s' % (type(e).__name__, str(e)[:300]))
    return ctx.finish()


if __name__ == '__main__':
    sys.exit(main())
