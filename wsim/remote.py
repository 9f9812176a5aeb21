"""A worker of a pool that starts as a new interpreter: it knows of the library only what the messages make it import."""
import sys


def main():
    from wsim import backend

    backend.install()
    from wsim import trace
    import importlib.util

    spec = importlib.util.find_spec("wulfric")
    trace.set_root(spec.submodule_search_locations[0])
    from wsim.props import c35

    c35.serve(int(sys.argv[1]), int(sys.argv[2]), 7000 + int(sys.argv[3]))


if __name__ == "__main__":
    main()
