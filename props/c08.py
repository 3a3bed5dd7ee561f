from common import *
import num
"""SafeInteger: exact or an exception"""


class P(num.Num):
    ID = 'C08'
    KIND = 'safe'
    COUNT = {'quick': 20000, 'thorough': 600000}
    RULE = ('random programs of 5 to 40 operations on 64 bit values concentrated around the limits of the builtin types, their square roots, quotients, and small numbers: every operation gives the exact result if it '
            'is representable and throws otherwise, leaving the operand unchanged. Non-trivial: some operation overflows or has a result of more than 31 bits')


PROP = P()
