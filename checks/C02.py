import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv


def main():
    c = core.Check("C02")
    equiv.run(c, "serializer.cpp")
    c.finish("every kind of value is written as, and read from, the same reference layout, for every value and length")


core.main(main)
