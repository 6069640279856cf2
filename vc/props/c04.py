from props.maps_ import *

PROP = 'C04'
DRIVER = {'src': 'c04.c'}
LEVEL_NOTE = """Every obligation discharged for tables of any capacity (a power of two) and any content, for an uninterpreted hash function:
lookup, insertion, growth, erasure (three arbitrary observers: the erased key, an absent key, any other key), clear and destruct.
Trusted: libc memory functions, no allocation failure, tables of at most 2^47 elements; the well-founded induction that
turns 'each slot moved keeps the probe-path invariant' into the invariant of the whole table is the loop rule of the verifier."""
HARNESSES = harnesses(MAPI)
