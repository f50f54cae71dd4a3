import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv


def main():
    c = core.Check("C20")
    equiv.run(c, "data.cpp")
    c.finish("the array serving a position, dimension, element or element index is the declared one, and every allocation resizes each array to the element count of its own dimension")


core.main(main)
