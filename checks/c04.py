"""C04: every temporary record survives the trip to disk unchanged."""
from sa import bits as B
from sa.ir import GiveUp, Fault, State
from sa.wit import Witnesses, setmem, getmem, compare, noreturn

TECHNIQUE = 'bit-provenance dataflow over the LLVM IR of the record read/write functions (both builds)'
RULE = ('for each record type, following every input bit through write() into a buffer of exactly disk_size bytes with arbitrary old contents '
        'and through read() back: each bit of each field within its format width is the same input bit, bits above it are 0, '
        'and no byte outside the buffer is read or written; assign() between record types copies the common fields bit for bit')

PRE = '#include <chia/phase1.h>\n#include <chia/phase2.h>\n#include <chia/phase3.h>\n'


def table(tag):
    k = 34 if tag == 'K34' else 32
    p = 35 if tag == 'K34' else 32
    lp = 2 * k - 1
    xm = [('y', k + 6), ('pos', p), ('off', 10), ('meta', None)]
    t = {'phase1::entry_1': [('y', k + 6), ('x', k)]}
    for i in (2, 3, 4, 5, 6):
        t['phase1::entry_%d' % i] = xm
    t['phase1::entry_7'] = [('y', k), ('pos', p), ('off', 10)]
    t['phase1::tmp_entry_1'] = [('x', k)]
    t['phase1::tmp_entry_x'] = [('pos', p), ('off', 10)]
    t['phase2::entry_x'] = [('key', p), ('pos', p), ('off', 10)]
    t['phase3::entry_lp'] = [('point', lp), ('key', p)]
    t['phase3::entry_np'] = [('key', p), ('pos', p)]
    return t


ASSIGN = [('phase1::tmp_entry_1', 'phase1::entry_1', ['x']),
          ('phase1::tmp_entry_x', 'phase1::entry_2', ['pos', 'off']),
          ('phase1::tmp_entry_x', 'phase1::entry_4', ['pos', 'off']),
          ('phase1::entry_7', 'phase1::entry_7', ['y', 'pos', 'off']),
          ('phase2::entry_x', 'phase1::tmp_entry_x', ['pos', 'off'])]


def ident(t):
    return t.replace('::', '_')


def check(r, tier):
    r.rule = RULE
    for tag in ('K32', 'K34'):
        one(r, tag)


def one(r, tag):
    tab = table(tag)
    fs = {}
    for t, fields in tab.items():
        n = ident(t)
        par, put, get = [], [], []
        for i, (f, w) in enumerate(fields):
            if w is None:
                par.append('const uint8_t* a%d, uint8_t* o%d' % (i, i))
                put.append('memcpy(e.%s.data(), a%d, e.%s.size());' % (f, i, f))
                get.append('memcpy(o%d, d.%s.data(), d.%s.size());' % (i, f, f))
            else:
                par.append('const uint128_t* a%d, uint128_t* o%d' % (i, i))
                put.append('e.%s = *a%d;' % (f, i))
                get.append('*o%d = d.%s;' % (i, f))
        fs['rt_' + n] = ('void rt_%s(uint8_t* buf, void* tmp, %s) { %s& d = *(%s*)tmp; { %s e; %s e.write(buf); } d.read(buf); %s }\nsize_t ds_%s() { return %s::disk_size; } size_t sz_%s() { return sizeof(%s); }'
                         % (n, ', '.join(par), t, t, t, ' '.join(put), ' '.join(get), n, t, n, t))
        if any(w is None for _, w in fields):
            fs['rt_' + n] += '\nsize_t ms_%s() { return sizeof(%s::meta); }' % (n, t)
    for d, s, fields in ASSIGN:
        n = ident(d) + '__' + ident(s)
        par = ', '.join('const uint128_t* a%d, uint128_t* o%d' % (i, i) for i in range(len(fields)))
        fs['as_' + n] = 'void as_%s(%s) { %s e; %s d; %s d.assign(e); %s }' % (
            n, par, s, d, ' '.join('e.%s = *a%d;' % (f, i) for i, f in enumerate(fields)), ' '.join('*o%d = d.%s;' % (i, f) for i, f in enumerate(fields)))
    W = Witnesses(PRE, fs, 'c04' + tag, ['-DCHIA_K34=1'] if tag == 'K34' else [])
    r.count('witness functions', len(fs))

    def const(n, f):
        I = W.interp(n)
        return B.cval(I.run(f, State(), [])[0][2])

    for t, fields in tab.items():
        n = ident(t)
        label = '%s (%s)' % (t, tag)
        try:
            ds = const('rt_' + n, 'ds_' + n)
            I = W.interp('rt_' + n)
            st = State()
            buf = I.alloc(st, ds, 'buffer of disk_size bytes')
            setmem(st, buf, B.inp('old', ds * 8))
            tmp = I.alloc(st, const('rt_' + n, 'sz_' + n), 'record')
            args = [buf, tmp]
            exp = []
            for f, w in fields:
                if w is None:
                    ms = const('rt_' + n, 'ms_' + n)
                    v = B.inp(f, ms * 8)
                    a, o = I.alloc(st, ms, f), I.alloc(st, ms, f)
                else:
                    v = B.zext(B.inp(f, w), 128)
                    a, o = I.alloc(st, 16, f), I.alloc(st, 16, f)
                setmem(st, a, v)
                args += [a, o]
                exp.append((f, o, v))
            outs = I.run('rt_' + n, st, args)
        except Fault as e:
            r.violation(label, 'storing and loading a record: %s' % e, key='%s fault' % label)
            continue
        except GiveUp as e:
            r.undecided('%s: %s' % (label, e))
            continue
        r.saw(t + '::read', t + '::write')
        for s2, kind, v in outs:
            if kind != 'ret':
                noreturn(r, 'storing or loading a record', label, s2, kind, label + ' noreturn', v)
                continue
            for f, o, e in exp:
                compare(r, '%s.%s is loaded as stored' % (label, f), label, getmem(I, s2, o, len(e) // 8), e, s2.assume)
            if any(('uninit' in str(B.NODE[b])) for b in sum((I.loadb(s2, buf, ds)), ()) if b > 1):
                r.count('records with undetermined padding bits')
        r.count('record layouts')
    for d, s, fields in ASSIGN:
        n = ident(d) + '__' + ident(s)
        label = '%s::assign(%s) (%s)' % (d, s, tag)
        try:
            I = W.interp('as_' + n)
            st = State()
            args, exp = [], []
            wd = dict(tab[d])
            for f in fields:
                v = B.zext(B.inp(f, wd[f]), 128)
                a, o = I.alloc(st, 16, f), I.alloc(st, 16, f)
                setmem(st, a, v)
                args += [a, o]
                exp.append((f, o, v))
            outs = I.run('as_' + n, st, args)
        except (Fault, GiveUp) as e:
            r.undecided('%s: %s' % (label, e))
            continue
        r.saw(d + '::assign')
        for s2, kind, v in outs:
            for f, o, e in exp:
                if kind == 'ret':
                    compare(r, '%s copies %s' % (label, f), label, getmem(I, s2, o, 16), e, s2.assume)
