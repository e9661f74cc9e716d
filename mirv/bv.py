"""Bit-vector mode of the engine: machine integers are z3 bit vectors of their width (for code whose meaning is in the bits)."""
from acct import *
from verify import *

W = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64}
BV = z3.BitVecRef


def is_bv(x): return isinstance(x, BV)


def fit(v, w):
    """v as a bit vector of width w (zero extended or truncated)"""
    if isinstance(v, bool): return z3.BitVecVal(int(v), w)
    if isinstance(v, int): return z3.BitVecVal(v, w)
    if isinstance(v, z3.BoolRef): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    n = v.size()
    if n == w: return v
    if n < w: return z3.ZeroExt(w - n, v)
    if z3.is_app_of(v, z3.Z3_OP_ZERO_EXT) and v.arg(0).size() == w: return v.arg(0)
    return z3.Extract(w - 1, 0, v)


class BVEngine(Engine):
    def __init__(self, crate, opts=None):
        Engine.__init__(self, crate, opts)
        self.solver.set('timeout', 2000)

    def int_sym(self, name, ty):
        if ty not in W: raise Unsupported('bit-vector integer of type ' + ty)
        return z3.BitVec(name, W[ty])

    def z(self, x): return x

    def binop(self, st, op, a, b, ty):
        if not (is_bv(a) or is_bv(b)): return Engine.binop(self, st, op, a, b, ty)
        if ty not in W: raise Unsupported('%s at %s' % (op, ty))
        w = W[ty]; a = fit(a, w)
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            b = fit(b, w) if not is_bv(b) or b.size() <= w else z3.Extract(w - 1, 0, b)
            return a << b if op.startswith('Shl') else z3.LShR(a, b)       # the shift amount is asserted to be below the width
        b = fit(b, w)
        if op in ('CheckedAdd', 'CheckedSub', 'CheckedMul', 'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            k = op.replace('Checked', '').replace('WithOverflow', '')
            if k == 'Add': r = a + b; ov = z3.ULT(r, a)
            elif k == 'Sub': r = a - b; ov = z3.ULT(a, b)
            else: r = a * b; ov = z3.Not(z3.BVMulNoOverflow(a, b, False))
            return Rec('(%s, bool)' % ty, None, {0: r, 1: ov})
        f = {'Eq': lambda: a == b, 'Ne': lambda: a != b, 'Lt': lambda: z3.ULT(a, b), 'Le': lambda: z3.ULE(a, b), 'Gt': lambda: z3.UGT(a, b), 'Ge': lambda: z3.UGE(a, b),
             'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b, 'Div': lambda: z3.UDiv(a, b), 'Rem': lambda: z3.URem(a, b),
             'BitAnd': lambda: a & b, 'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b}.get(op)
        if f is None: raise Unsupported('bit-vector ' + op)
        return f()

    def cast_int(self, v, to):
        if isinstance(v, Enum): v = v.d
        if is_bv(v) or isinstance(v, z3.BoolRef): return fit(v, W[to])
        return Engine.cast_int(self, v, to)

    def rvalue(self, st, rv, destty):
        if rv[0] == 'cast' and rv[3] == 'IntToInt':
            v = self.operand(st, rv[1])
            if is_bv(v) or isinstance(v, z3.BoolRef): return fit(v, W[self.subst(st, rv[2])])
        if rv[0] == 'un' and rv[1] == 'Not':
            v = self.operand(st, rv[2])
            if is_bv(v): return ~v
        return Engine.rvalue(self, st, rv, destty)

    def get1(self, st, v, p):
        if p[0] == 'i' and isinstance(v, Arr) and is_z3(p[1]):
            r = v.items[-1]
            for k in range(len(v.items) - 2, -1, -1): r = z3.If(fit(p[1], 64) == k, v.items[k], r)
            return r
        return Engine.get1(self, st, v, p)

    def setp(self, st, v, path, nv):
        if path and path[0][0] == 'i' and isinstance(v, Arr) and is_z3(path[0][1]) and len(path) == 1:
            return Arr(v.ty, [z3.If(fit(path[0][1], 64) == k, fit(nv, x.size()) if is_bv(x) else nv, x) for k, x in enumerate(v.items)])
        return Engine.setp(self, st, v, path, nv)
