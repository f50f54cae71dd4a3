import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv


def main():
    c = core.Check("C30")
    equiv.run(c, "centers.cpp")
    c.finish("normal form of the center computation equals that of the documented formula")


core.main(main)
