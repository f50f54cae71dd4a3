import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv


def main():
    c = core.Check("C32")
    equiv.run(c, "normals.cpp")
    c.finish("normal form of the normal computation equals that of the documented formula")


core.main(main)
