"""Import the z3 Python bindings of the tooling venv into the project's interpreter.

The project runs on /opt/venv (numpy 1.26, scipy 1.11, gurobipy); z3 is only installed
in /opt/veriftools/pyvenv.  Both are CPython 3.12, so the package is loaded by path
without putting the whole tooling site-packages (another numpy) on sys.path."""
import importlib.util
import sys

SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def load():
    if 'z3' in sys.modules:
        return sys.modules['z3']
    try:
        import z3
        return z3
    except ImportError:
        pass
    spec = importlib.util.spec_from_file_location(
        'z3', SITE + '/z3/__init__.py', submodule_search_locations=[SITE + '/z3'])
    mod = importlib.util.module_from_spec(spec)
    sys.modules['z3'] = mod
    spec.loader.exec_module(mod)
    return mod


z3 = load()
