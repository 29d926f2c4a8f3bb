import sys

from mc.core import main

if __name__ == "__main__":
    code = main(sys.argv[1], sys.argv[2])
    sys.stdout.flush()
    sys.exit(code)
