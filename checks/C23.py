import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv


def main():
    c = core.Check("C23")
    equiv.run(c, "subelements.cpp")
    c.finish("every fill level of every enumerated capacity: contents law folds to true, overfilling raises on every path")


core.main(main)
