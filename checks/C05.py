import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv


def main():
    c = core.Check("C05")
    equiv.run(c, "files.cpp")
    c.finish("saving and loading have the file effects of the reference, in order, under the same conditions, and fail where it fails")


core.main(main)
