"""python3-vt -m engine.check ID"""
import importlib
import sys

def main():
    m = importlib.import_module('engine.checks.%s' % sys.argv[1].lower())
    sys.exit(m.CHECK().main())

if __name__ == '__main__':
    main()
