import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv


def main():
    c = core.Check("C22")
    equiv.run(c, "links.cpp")
    c.finish("side and chain updates equal the documented update of the four links; refused queries raise on every path")


core.main(main)
