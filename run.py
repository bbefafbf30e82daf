#!/opt/venv/bin/python
"""Entry point of all checks:  run.py C01 [--replay FILE]   (tier from VERIF_TIER, seed from VERIF_SEED)."""
import os
import sys

_ENV = {
    'PYTHONHASHSEED': '0',
    'PYTHONDONTWRITEBYTECODE': '1',
    'MPLBACKEND': 'Agg',
    'OMP_NUM_THREADS': '1',
    'OPENBLAS_NUM_THREADS': '1',
    'PYTHONWARNINGS': 'ignore',
}


def fresh_sources(root):
    """modules below root are always compiled from their current source, never taken from a .pyc"""
    from importlib.machinery import FileFinder, SourceFileLoader

    class Loader(SourceFileLoader):
        def get_code(self, fullname):
            path = self.get_filename(fullname)
            return self.source_to_code(self.get_data(path), path)

    make = FileFinder.path_hook((Loader, ['.py']))

    def hook(path):
        path = os.path.abspath(path)
        if path == root or path.startswith(root + os.sep):
            return make(path)
        raise ImportError(path)

    sys.path_hooks.insert(0, hook)
    sys.path_importer_cache.clear()


if __name__ == '__main__':
    if any(os.environ.get(k) != v for k, v in _ENV.items()):
        os.environ.update(_ENV)
        os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:])
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    repo = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))
    sys.path.insert(0, repo)
    fresh_sources(repo)
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    from lib import fw

    sys.exit(fw.main(sys.argv[1:]))
