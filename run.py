"""
Entry point of every check:

    run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored; 1: a VIOLATION line was
printed; 2: the check itself could not do its work.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))

sys.dont_write_bytecode = True

# Nothing may depend on the local timezone of the process, so use one which
# nobody's test uses: -4:30, with daylight saving time.
os.environ["TZ"] = "VST+4:30VDT,M3.2.0,M11.1.0"
os.environ.setdefault("LC_ALL", "C.UTF-8")

sys.path.insert(0, HERE)

if __name__ == "__main__":
    from harness import bootstrap
    bootstrap.setup()
    from harness import core
    sys.exit(core.main(sys.argv[1:]))
