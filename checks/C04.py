import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv


def main():
    c = core.Check("C04")
    equiv.run(c, "fixed.cpp")
    c.finish("a stored sequence is read into a destination of fixed length only when the lengths agree")


core.main(main)
