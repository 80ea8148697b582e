import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.setrecursionlimit(1000)

if __name__ == "__main__":
    import pbt
    import aas_test_engines

    if not os.path.abspath(aas_test_engines.__file__).startswith(os.path.abspath(REPO) + os.sep):
        print("wrong aas_test_engines imported", aas_test_engines.__file__, file=sys.stderr)
        sys.exit(2)
    module = importlib.import_module("checks." + sys.argv[1].lower())
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        sys.exit(pbt.replay(module.CHECK, sys.argv[3]))
    if len(sys.argv) > 2 and sys.argv[2] == "--twin":
        import twin

        sys.exit(twin.serve(module.CHECK, sys.argv[3]))
    sys.exit(pbt.main(module.CHECK))
