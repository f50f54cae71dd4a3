import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv


def main():
    c = core.Check("C36")
    equiv.run(c, "coloring.cpp")
    c.finish("the coloring procedure keeps adjacent elements apart")


core.main(main)
