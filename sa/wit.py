"""Witness functions: small C++ functions that instantiate repository code, lowered to IR together (or one by one when one of them no
longer compiles against the current interfaces)."""
from . import ir, bits as B
from .ir import GiveUp, Fault, Interp, State, compile_ir


class Witnesses:
    def __init__(self, pre, funcs, tag, extra=(), lang='c++', link=()):
        """funcs: {name: source of an extern "C" function}"""
        self.mods, self.err = {}, {}
        try:
            m = compile_ir(pre + '\nextern "C" {\n' + '\n'.join(funcs.values()) + '\n}\n', tag, extra, lang, link)
            for n in funcs:
                self.mods[n] = m
        except GiveUp:
            for n, s in funcs.items():
                try:
                    self.mods[n] = compile_ir(pre + '\nextern "C" {\n' + s + '\n}\n', tag, extra, lang, link)
                except GiveUp as e:
                    self.err[n] = str(e)

    def interp(self, n, **kw):
        if n in self.err:
            raise GiveUp(self.err[n])
        return Interp(self.mods[n], **kw)


def setmem(st, ptr, word):
    for i in range(len(word) // 8):
        st.mem[ptr[1]][ptr[2] + i] = word[i*8:i*8+8]


def getmem(I, st, ptr, nbytes):
    w = ()
    for b in I.loadb(st, ptr, nbytes):
        if b[0] == 'P':
            raise GiveUp('pointer in data')
        w += b
    return w


def compare(r, what, where, got, exp, assume=(), key=None, names=None):
    """one obligation: the words agree"""
    d = B.differ(got, exp, assume.items() if isinstance(assume, dict) else assume)
    if d is None:
        r.ok(what)
        return True
    i = d[1]
    txt = 'bit %d is %s, expected %s' % (i, B.show(got[i]), B.show(exp[i]))
    if d[0] == 'no':
        r.violation(where, what + ': ' + txt, key=key or what)
    else:
        r.undecided(what + ': ' + txt)
    return False


def noreturn(r, what, where, st, kind, key, v=None):
    """a path that does not return: a violation if its condition is satisfiable"""
    if kind == 'giveup':
        r.undecided('%s: %s' % (what, str(v)[:200]))
    elif B.sat(st.assume):
        r.violation(where, '%s: does not return (%s)' % (what, kind), key=key)
    else:
        r.undecided('%s: path ends in %s' % (what, kind))
