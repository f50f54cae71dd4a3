import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv


def main():
    c = core.Check("C34")
    equiv.run(c, "apply.cpp")
    c.finish("the ordered trace of (start, target) pairs of every dimension pair equals the walk over the stored lists")


core.main(main)
