import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv


def main():
    c = core.Check("C17")
    equiv.run(c, "records.cpp")
    c.finish("every call writes exactly the reference records: place, name and value of each argument once, in order")


core.main(main)
