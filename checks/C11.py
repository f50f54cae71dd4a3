import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv


def main():
    c = core.Check("C11")
    equiv.run(c, "interfaces.cpp")
    c.finish("every view operation equals the operation of the container itself")


core.main(main)
