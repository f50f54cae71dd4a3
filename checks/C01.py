import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv


def main():
    c = core.Check("C01")
    equiv.run(c, "vertex.cpp")
    c.finish("normal form of every operator instantiation equals the component-wise reference")


core.main(main)
