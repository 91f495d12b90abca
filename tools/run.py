import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build  # noqa: E402
import vlib  # noqa: E402


def main():
    ok, log, secs = build.build()
    if not ok:
        sys.stdout.write(log[-6000:])
        print("the C++ sources of /repo do not build")
        return 2
    if secs > 3:
        print("built in %.1f s" % secs)
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    return vlib.main(sys.argv[1], replay)


sys.exit(main())
