"""Parsing message heads stays inside the input (C12)."""
from props.parsers import *

PROP = 'C12'
VARIANTS = [False, True]
HARNESSES = PARTS
SLOW = ('http_read_request_data', 'parse_headers')
DRIVER = {'src': 'c13.c', 'alloc': False, 'flags': ['-msse4.2', '-DPROP=12']}
LEVEL_NOTE = """Every obligation generated from the current sources is discharged for all inputs and all iterations, for the SSE 4.2 and the portable build.  Trusted: clang IR, the VC generator, z3; pcmpestri (SSE 4.2) by an assumed contract."""
