import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv


def main():
    c = core.Check("C10")
    equiv.run(c, "traits_algorithm.cpp")
    c.finish("every operator, function and aggregate equals the member by member reference")


core.main(main)
