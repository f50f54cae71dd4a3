import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv


def main():
    c = core.Check("C44")
    equiv.run(c, "usable.cpp")
    c.finish("every documented operation compiles for every supported type and dimension")


core.main(main)
