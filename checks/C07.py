import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv


def main():
    c = core.Check("C07")
    equiv.run(c, "traits_apply.cpp")
    c.finish("the ordered calls of every application form are exactly one per member, with its index, access and name")


core.main(main)
