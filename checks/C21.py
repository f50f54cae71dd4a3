import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv


def main():
    c = core.Check("C21")
    equiv.run(c, "index.cpp")
    c.finish("every law folds to true on all paths; tagging functions equal their definition")


core.main(main)
