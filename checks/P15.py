from vlib import *
c = Check('P15', 'symbolic execution over abstract point orders; threshold with exact integer bounds', 'threshold: all (2-part, 3-part) exponent pairs up to (p+1)^2, real exponents, four sizes; Check_Curve: all sequences of up to NS samples with arbitrary orders and relations, exponents (4,3), (3,4) and (5,2)',
          stubs=['point multiplication acts on abstract orders', 'random_point: arbitrary orders and subgroup labels'])
X = [(f, 'stub_' + f) for f in 'xDBL xDBLe xTPL xTPLe AC_to_AAC24 proj_equal random_point'.split()]
EXP = {434: (216, 137), 503: (250, 159), 610: (305, 192), 751: (372, 239)}
def tab(eA, eB, k):
    p = 2**eA * 3**eB - 1; out = []
    for b in range(2*eB + 1):
        a = 0
        while not (2**a * 3**b > 4*p if k == 4 else 2**a * 3**b >= 16*p): a += 1
        out.append(a)
    return ','.join(map(str, out))
jobs = []
for a, b in ((4, 3), (3, 4), (5, 2), (2, 2), (2, 3)):
    T = ['SZ=%d' % (610 if a % 2 else 434), 'TOY', 'TOY_A=%d' % a, 'TOY_B=%d' % b, 'BOUNDS=' + tab(a, b, 4), 'BOUNDS16=' + tab(a, b, 16)]
    for ns in ((2, 3) if a == 2 or not c.quick else (2,)):
        jobs.append(lambda T=T, ns=ns, a=a, b=b: symx(c, 'check_curve_%d_%d_%d' % (a, b, ns), 'isog.c', entry='h_check_curve', defs=T + ['NS=%d' % ns], replace=X, expect_reach=['accepted', 'rejected'], bounds='exponents %d,%d, at most %d samples' % (a, b, ns), timeout=500 if c.quick else 3000))
        jobs.append(lambda T=T, ns=ns, a=a, b=b: symx(c, 'check_bad_%d_%d_%d' % (a, b, ns), 'isog.c', entry='h_check_bad', defs=T + ['NS=%d' % ns], replace=X, expect_reach=['done'], bounds='exponents %d,%d, at most %d samples' % (a, b, ns), timeout=500 if c.quick else 3000))
    jobs.append(lambda T=T, a=a, b=b: symx(c, 'check_full_%d_%d' % (a, b), 'isog.c', entry='h_check_full', defs=T + ['NS=2'], replace=[(f, 'stub_random_point_full' if f == 'random_point' else s) for f, s in X], expect_reach=['done'], bounds='exponents %d,%d' % (a, b), timeout=300))
for sz, (a, b) in EXP.items():
    jobs.append(lambda sz=sz, a=a, b=b: symx(c, 'threshold_p%d' % sz, 'isog.c', entry='h_threshold', defs=['SZ=%d' % sz, 'BOUNDS=' + tab(a, b, 4), 'BOUNDS16=' + tab(a, b, 16)], replace=X, expect_reach=['proves', 'does not prove'], bounds='p%d, a<=%d, b<=%d' % (sz, 2*a, 2*b), timeout=300))
c.parallel(jobs)
c.finish()
