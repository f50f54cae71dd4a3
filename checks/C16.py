import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, equiv


def main():
    c = core.Check("C16")
    equiv.run(c, "loggers.cpp")
    c.finish("after every sequence of operations the same files are opened and released, each once, and each value goes to the open one")


core.main(main)
