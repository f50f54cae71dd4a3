import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv


def main():
    c = core.Check("C42")
    equiv.run(c, "read.cpp")
    c.finish("every reader builds the tables as the reference does")


core.main(main)
