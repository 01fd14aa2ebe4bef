import importlib
import os


def load_all():
    d = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(d)):
        if f.startswith('p_') and f.endswith('.py'):
            importlib.import_module('contracts.' + f[:-3])
