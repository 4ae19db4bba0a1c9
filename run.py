import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
from engine import harness
if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        sys.exit(harness.setup())
    sys.exit(harness.main(sys.argv[1]))
