from common import *
import num
"""BigInteger is the ring of integers (with the conventions of int for / and %)"""


class P(num.Num):
    ID = 'C07'
    KIND = 'big'
    COUNT = {'quick': 20000, 'thorough': 600000}
    RULE = ('random programs of 5 to 40 operations (construction from all builtin types, + - * / %, compound forms, self-assignment, negation, absolute value, gcd, lcm) on numbers up to about 1000 bits, '
            'concentrated around powers of two, the limits of the builtin types and small numbers; after every operation the result is compared with Python integers: by all six comparison operators with an '
            'independently constructed number, with the nearest ints, by conversion to int, and by residues. Non-trivial: some result has more than 64 bits')


PROP = P()
