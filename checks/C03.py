import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv


def main():
    c = core.Check("C03")
    equiv.run(c, "position.cpp")
    c.finish("after every short history of public operations, with chunk sizes as unknowns, reading continues where the reference (bytes, number of bytes read) continues")


core.main(main)
