"""The life of a server connection (C26)."""
from props.c25 import *

PROP = 'C26'
DEPS = ['C03', 'C18', 'C24']
LEVEL_NOTE = """Every obligation discharged by induction over any history of a connection, as for C25."""

HARNESSES = [('any history of a connection', history('l'))]
