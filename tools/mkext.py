'''Regenerates sa/extnames.json: the names that the libraries the repository uses define.
Run with the interpreter that has them installed (/opt/venv/bin/python); never part of a check.'''
import importlib
import json
import os
mods = {'np': 'numpy', 'np.random': 'numpy.random', 'np.linalg': 'numpy.linalg', 'os': 'os',
        'os.path': 'os.path', 'sys': 'sys', 'math': 'math', 'time': 'time',
        'itertools': 'itertools', 'random': 'random', 'csv': 'csv', 'pickle': 'pickle',
        'json': 'json', 'functools': 'functools', 'operator': 'operator',
        'collections': 'collections', 'datetime': 'datetime', 'logging': 'logging',
        'multiprocessing': 'multiprocessing', 'argparse': 'argparse', 'shutil': 'shutil', 're': 're',
        'copy': 'copy', 'ctypes': 'ctypes'}
out = {k: sorted(dir(importlib.import_module(v))) for k, v in mods.items()}
import numpy as np, datetime, logging, argparse, csv, io, queue, threading   # noqa
import multiprocessing as mp, multiprocessing.pool                            # noqa


def names(*objs):
    return sorted(set().union(*[dir(o) for o in objs]))


out['np.ndarray'] = names(np.ndarray, np.float64, np.random.RandomState, np.dtype,
                          np.finfo(float), np.random.Generator)
out['objects'] = sorted(set(names(
    datetime.datetime, datetime.timedelta, logging.Logger, logging.Handler,
    argparse.ArgumentParser, argparse._SubParsersAction, io.TextIOWrapper, io.BytesIO,
    csv.DictReader, csv.DictWriter, multiprocessing.pool.Pool, mp.Process, queue.Queue,
    threading.Lock())) | {'writerow', 'writerows', 'line_num', 'dialect', 'groups', 'group',
                          'match', 'get_obj', 'get_lock'})
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa',
                                 'extnames.json'), 'w'))
