"""The CNN layers (C20), over the functional contracts of the evaluator (abstract.py)."""
from verify import *
from terms import *
import abstract
from abstract import prod2, rot, value


def cts(a, i):
    return value(a.at(i).v)


def fold(v, ks):
    for k in ks:
        v = add(v, rot(v, num(k)))
    return v


@spec('cnn.Convolution', 'C20', abstract={'a4': 'a3', 'a6': 'a5'}, requires=lambda s: [ge(s.args[5].len, num(4)), ge(s.args[6].len, num(4))])
def _(s):
    img, ker = value(s.args[3].v), s.args[5]
    out = ZERO
    for i, r in enumerate((0, 1, 14, 15)):
        out = add(out, prod2(cts(ker, num(i)), rot(img, num(r))))
    return fold(out, (2048, 1024))


@spec('cnn.FC1Layer', 'C20', abstract={'a4': 'a3', 'a6': 'a5'}, requires=lambda s: [ge(s.args[5].len, ONE), ge(s.args[6].len, s.args[5].len)])
def _(s):
    x, mat, bias = value(s.args[3].v), s.args[5], value(s.args[7].v)
    i = s.v('I', 'i')
    row = prod2(cts(mat, i), rot(x, mul(num(128), i)))
    acc = Sum(i, abstract.vscale(ind(and_(ge(i, ZERO), lt(i, mat.len))), row))
    return add(fold(acc, (1 << k for k in range(7))), bias)


@spec('cnn.FC2Layer', 'C20', abstract={})
def _(s):
    x, mat, bias, mask = value(s.args[3].v), value(s.args[4].v), value(s.args[5].v), vec(mk('slots', s.args[6].v))
    v = fold(prod2(x, mask), (-(1 << k) for k in range(4)))
    return add(fold(prod2(v, mat), (128 << k for k in range(6))), bias)
