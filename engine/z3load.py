"""Make the pre-installed z3 bindings importable from the interpreter the
project itself runs on (/opt/venv), without exposing anything else of the
verification venv (its numpy/sympy are other versions)."""
import importlib.util
import os
import sys


def load():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    try:
        import z3  # noqa
        return z3
    except ImportError:
        pass
    for root in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
        p = os.path.join(root, "z3", "__init__.py")
        if os.path.exists(p):
            spec = importlib.util.spec_from_file_location(
                "z3", p, submodule_search_locations=[os.path.dirname(p)])
            m = importlib.util.module_from_spec(spec)
            sys.modules["z3"] = m
            spec.loader.exec_module(m)
            return m
    raise RuntimeError("z3 bindings not found")


z3 = load()
