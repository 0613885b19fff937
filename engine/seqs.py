from sym import *


def mkseq(I, T, name):
    raise Unsupported('Seq')
