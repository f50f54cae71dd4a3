import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv


def main():
    c = core.Check("C06")
    equiv.run(c, "traits.cpp")
    c.finish("every access of a reflected member reads or writes that member only; forbidden accesses do not compile")


core.main(main)
