import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv, handlers


def main():
    c = core.Check("C41")
    equiv.run(c, "read.cpp", only=["vtk_stream", "vtk_types", "vtk3_cells"])
    equiv.run(c, "columns.cpp", only=["read"])
    equiv.run(c, "named.cpp", only=["load_2d", "load_3d"])
    handlers.run(c, "handlers.cpp")
    c.finish("the readers refuse exactly what the reference refuses")


core.main(main)
