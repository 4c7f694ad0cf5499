"""deser-path: C17 and its share of C10 and C11."""
from .sim import *


def path_transparent_ser(rep, mon, S):
    pass


def path_transparent_de(rep):
    pass
