"""Shared plumbing: load the crate's facts once per configuration."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract
from facts import Crate
from engine import Engine, Out, State, Budget, Unsupported, root, parent, CallSite
from terms import *

_crates = {}


def crates(*configs):
    need = [c for c in configs if c not in _crates]
    if need:
        for c, d in extract.run(need).items():
            _crates[c] = {k: Crate(j) for k, j in d.items()}
    return [_crates[c] for c in configs]
