from vlib import *
c = Check('P22', 'symbolic execution; all entropy bytes symbolic', 'one call, up to three draws from the random source; plain and compressed samplers, fprand; four sizes', stubs=['randombytes: arbitrary bytes or failure'])
jobs = []
R = [('randombytes', 'stub_randombytes')]
for sz in SIZES:
    for comp in (0, 1):
        for who in (0, 1):
            for h, r in (('h_scalar', 'any entropy'), ('h_cover', 'every value'), ('h_fail', 'failing source')):
                jobs.append(lambda sz=sz, comp=comp, who=who, h=h, r=r: symx(c, '%s_%s_p%d%s' % (h[2:], 'AB'[who], sz, '_compressed' if comp else ''), 'scalars.c', entry=h, defs=['SZ=%d' % sz, 'WHO=%d' % who] + (['COMP'] if comp else []),
                            config=FAST_DEFS, replace=R, expect_reach=[r], bounds='p%d' % sz, timeout=150))
    for h, r in (('h_fprand', 'any entropy'), ('h_fprand_cover', 'every value')):
        jobs.append(lambda sz=sz, h=h, r=r: symx(c, '%s_p%d' % (h[2:], sz), 'scalars.c', entry=h, defs=['SZ=%d' % sz, 'POIK'], replace=R, expect_reach=[r], bounds='p%d' % sz, timeout=150))
c.parallel(jobs)
c.finish()
