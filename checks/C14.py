import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv


def main():
    c = core.Check("C14")
    equiv.run(c, "json_log.cpp")
    # what is logged, whole containers and classes, is itself closed and separated
    equiv.run(c, "printers.cpp", only=["elements", "lists", "scalars", "state", "bound", "library"], names="_stream$|_(kept|restored)$|_true_|_throw_")
    c.finish("every history of the logger writes exactly the reference document: header once, records separated by commas, closing bracket once, names and files escaped")


core.main(main)
