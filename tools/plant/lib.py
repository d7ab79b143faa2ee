"""Helpers for the demonstrations: datasets in memory or in a scratch directory."""
import atexit
import contextlib
import io
import os
import shutil
import sys
import tempfile
import types
import warnings

sys.path.insert(0, os.getcwd())
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

import numpy as np

np.seterr(all='ignore')
nan = float('nan')

_scratch = []


def scratch():
    if not _scratch:
        d = tempfile.mkdtemp(prefix='demo_')
        _scratch.append(d)
        atexit.register(shutil.rmtree, d, True)
    return _scratch[0]


def dataset(oss, contents=None, paths=None, asset_ids=None, ref_paths=None, **attrs):
    """One video per entry of oss (its votes). contents: content id per video."""
    n = len(oss)
    contents = contents or [0] * n
    asset_ids = asset_ids or list(range(n))
    paths = paths or ['v%d.yuv' % i for i in range(n)]
    ds = types.SimpleNamespace()
    ds.dataset_name = attrs.pop('dataset_name', 'demo')
    ds.ref_score = 5.0
    for k, v in attrs.items():
        setattr(ds, k, v)
    if ref_paths is None:
        ref_paths = [next((p for p, cc in zip(paths, contents) if cc == c), 'ref%d.yuv' % c)
                     for c in range(max(contents) + 1)]
    ds.ref_videos = [{'content_id': c, 'content_name': 'c%d' % c, 'path': p} for c, p in enumerate(ref_paths)]
    ds.dis_videos = [{'content_id': c, 'asset_id': a, 'path': p, 'os': o}
                     for c, a, p, o in zip(contents, asset_ids, paths, oss)]
    return ds


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def run(model, ds, reader=None, **kw):
    import sureal  # noqa: registers all models
    import sureal.pc_subjective_model, sureal.experimental  # noqa
    from sureal.subjective_model import SubjectiveModel
    from sureal.dataset_reader import RawDatasetReader
    reader = reader or RawDatasetReader
    with quiet():
        return SubjectiveModel.find_subclass(model)(reader(ds)).run_modeling(**kw)


def close(a, b, tol=1e-6):
    return np.allclose(np.array(a, dtype=float), np.array(b, dtype=float), rtol=tol, atol=tol, equal_nan=True)


def write(ds, name='ds.py'):
    from sureal.dataset_reader import RawDatasetReader
    p = os.path.join(scratch(), name)
    RawDatasetReader.write_out_dataset(ds, p)
    return p
