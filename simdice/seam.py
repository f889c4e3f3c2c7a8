"""The seams: how the code under test enters the simulator.

load() imports the library from the current working tree (VERIF_REPO, default /repo), never from a
cached .pyc, after replacing the lock constructors by ones the simulator's scheduler understands.
Nothing in the repository is modified.
"""
import importlib.util
import logging
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')

sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent-verif'

LIB = None


class Lib:
    """namespace of the public API, looked up on the modules of this tree"""


def load():
    global LIB
    if LIB is not None:
        return LIB
    from . import sched
    sched.install_locks()
    sys.meta_path[:] = [f for f in sys.meta_path if '__editable__' not in getattr(f, '__module__', '') and '__editable__' not in repr(f)]
    for k in [k for k in sys.modules if k == 'dice_calc' or k.startswith('dice_calc.')]:
        del sys.modules[k]
    spec = importlib.util.spec_from_file_location('dice_calc', os.path.join(SRC, '__init__.py'), submodule_search_locations=[SRC])
    mod = importlib.util.module_from_spec(spec)
    sys.modules['dice_calc'] = mod
    logging.disable(logging.CRITICAL)  # log records go nowhere; they are not part of any property
    spec.loader.exec_module(mod)
    import dice_calc.parser as parser
    import dice_calc.parser.parse_and_exec as pe
    assert os.path.realpath(pe.__file__).startswith(os.path.realpath(SRC)), pe.__file__
    L = Lib()
    for n in mod.__all__:
        setattr(L, n, getattr(mod, n))
    L.module = mod
    L.compile_anydice = parser.compile_anydice
    L.get_lib = parser._get_lib
    L.pe = pe
    L.safe_exec = pe.safe_exec
    L.unsafe_exec = pe.unsafe_exec
    import dice_calc.altcast
    import dice_calc.funclib
    L.D = dice_calc.altcast.D
    L.gwf = dice_calc.funclib.gwf
    L.MetaRV = sys.modules['dice_calc.typings'].MetaRV
    L.MetaSeq = sys.modules['dice_calc.typings'].MetaSeq
    sched.CODES = sched.library_codes(SRC)
    sched.hot_places(SRC)
    LIB = L
    return L
