import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv


def main():
    c = core.Check("C12")
    equiv.run(c, "printers.cpp")
    c.finish("every export writes exactly the reference sequence of characters and values, through the stream and through C stdio")


core.main(main)
