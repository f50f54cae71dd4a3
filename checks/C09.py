import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv


def main():
    c = core.Check("C09")
    equiv.run(c, "traits_select.cpp")
    c.finish("every combination selects the documented reflection (compile-time table) and the bound object itself")


core.main(main)
