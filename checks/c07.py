"""C07: coordinate policies of padded images, for every image size and coordinate within a bounded number of periods, and the guarantee that they stay inside the image."""
from sx.images import *

N, V, R = sym('N', 'i'), sym('v', 'i'), sym('r', 'i')
Z, ONE = num(0, 'i'), num(1, 'i')
Q = 6


def run(ck):
    ck.rule('policy', 'the coordinate policy maps coordinate v = q * period + r onto the documented pixel, for every size N and every remainder r')
    ck.rule('inside', 'the mapped coordinate lies inside [0, N)')
    ck.rule('defined', 'no division by zero for any N >= 1')
    F = ck.F = Facts([VERIF + '/drivers/images.cpp'])
    M = sub(N, ONE)
    pol = {
        'ReplicateCoordinates': (N, lambda q: Z if q < 0 else (R if q == 0 else sub(N, ONE)), 1),
        'ReflectCoordinates': (N, lambda q: R if q % 2 == 0 else sub(sub(N, R), ONE), 1),
        'Reflect101Coordinates': (M, lambda q: R if q % 2 == 0 else sub(M, R), 2),
        'WrapCoordinates': (N, lambda q: R, 1),
    }
    for name, (P, want, nmin) in pol.items():
        ck.section(one, ck, F, name, P, want, nmin)
    ck.count('periods considered on each side', Q)
    return 6


def one(ck, F, name, P, want, nmin):
    fs = [f for f in F.funcs.values() if f['n'] == name and len(f['params']) == 2 and f.get('body')]
    if not fs:
        return ck.undecided('policy', 'PaddedImage.h', 'no ' + name)
    f = fs[0]
    for q in range(-Q, Q + 1):
        v = add(scale(P, q), R)
        facts = [ge(N, num(nmin)), ge(R, Z), lt(R, P)]
        s = summarise(F, f, args={0: N, 1: v}, st=pc(facts))
        if not isinstance(s.ret, T):
            ck.undecided('policy', f, '%s: no value' % name)
            continue
        check(ck, 'policy', f, s.ret, want(q), facts, '%s, period %d' % (name, q))
    s = summarise(F, f, args={0: N, 1: V})
    for n in (1, 2, 3, 7):
        facts = [ge(V, num(-Q * n)), le(V, num(Q * n))]
        s = summarise(F, f, args={0: num(n, 'i'), 1: V}, st=pc(facts))
        z = [x for x in subterms(s.ret) if x.op == 'app' and x.a[0] in ('idiv', 'imod') and const(x.a[2]) == 0] if isinstance(s.ret, T) else []
        if z:
            ck.fail('defined', f, '%s divides by zero for an image of %d pixel(s)' % (name, n))
        else:
            ck.holds('defined', f, '%s, N = %d' % (name, n))
        if not z and n < 3:
            g = band(ge(s.ret, Z), lt(s.ret, num(n)))
            check(ck, 'inside', f, to_num(g), ONE, facts, '%s, N = %d: mapped coordinate inside the image' % (name, n))


def check(ck, rule, f, got, want, facts, what):
    r, why = TT.equal_div(got, want, facts)
    if r:
        return ck.holds(rule, f, what)
    if r is None or lost(got) or foreign(got, want):
        return ck.undecided(rule, f, '%s: %s; %s' % (what, why, show(got)))
    return ck.fail(rule, f, '%s: code computes %s, required %s; differs for %s' % (what, show(got), show(want), why))


from sx.report import lost, foreign
import sx.terms as TT


def pc(facts):
    st = State()
    st.pc = [f for f in facts if f is not TRUE]
    return st
