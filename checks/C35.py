import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv


def main():
    c = core.Check("C35")
    equiv.run(c, "connections.cpp")
    c.finish("tables equal the documented construction")


core.main(main)
