import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv


def main():
    c = core.Check("C43")
    equiv.run(c, "columns.cpp")
    equiv.run(c, "written.cpp")
    equiv.run(c, "cells.cpp", only=["vtk3_tetra", "vtk3_polyhedron"])
    c.finish("every written file, token by token, for every mesh and container; every attribute read from the place of its name")


core.main(main)
