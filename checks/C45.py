import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv


def main():
    c = core.Check("C45")
    equiv.run(c, "named.cpp")
    c.finish("the reader and the writer are chosen by the end of the file name")


core.main(main)
