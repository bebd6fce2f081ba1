"""P10: randombytes fills the whole buffer with entropy for every schedule of short/failed reads."""
from vlib import *
c = Check('P10', 'bounded-symbolic', 'requests of 0..N bytes (N=6 quick / 10 thorough), up to two consecutive calls, at most 2 failing open/read calls in total, any split of the request into short reads',
          stubs=['open/read/sleep: read returns -1 or 1..n bytes of arbitrary data (urandom contract: never 0)', 'requests above INT_MAX are outside the bound'])
R = [(f, 'stub_' + f) for f in ('open', 'read', 'sleep')]
th = []
for calls, n in ((1, 6), (2, 3)) if c.quick else ((1, 12), (2, 6), (3, 3)):
    th.append(lambda calls=calls, n=n: cbmc(c, 'calls%d_n%d' % (calls, n), 'random.c', defs=['CALLS=%d' % calls, 'MAXN=%d' % n], replace=R, unwind=n + 12, timeout=800 if c.quick else 7200,
              functions=['randombytes'], config=BASE_DEFS, bounds='%d call(s) of up to %d bytes' % (calls, n)))
c.parallel(th)
c.finish()
