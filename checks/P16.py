from vlib import *
c = Check('P16', 'symbolic execution over abstract point orders', 'walks: real exponents and strategies, kernel 2-part/3-part up to two beyond full order plus an arbitrary other component, above/not above (0,0), every combination of optional outputs; samplers: up to three tries (order computation with exponents 5 and 4); chains: real lengths; four sizes',
          stubs=['point multiplication and isogeny formulas act on abstract orders (their algebra is outside this check)', 'random_point: arbitrary orders'])
X = [(f, 'stub_' + f) for f in 'xDBL xDBLe xTPL xTPLe AC_to_AAC24 AC24_to_AC AA24_to_AC get_4_isog eval_4_isog get_3_isog eval_3_isog get_2_isog eval_2_isog change_model eval_iso fp2div'.split()]
jobs = []
for sz in reversed(SIZES):
    for w in 'AB':
        jobs.append(lambda sz=sz, w=w: symx(c, 'walk_%s_p%d' % (w, sz), 'isog.c', entry='h_walk_' + w, defs=['SZ=%d' % sz], replace=X + [('random_point_with_order', 'stub_random_point_with_order'), ('proj_equal', 'stub_proj_equal_w')],
                    expect_reach=['walked'], bounds='p%d' % sz, timeout=300))
        jobs.append(lambda sz=sz, w=w: symx(c, 'refuse_%s_p%d' % (w, sz), 'isog.c', entry='h_refuse_' + w, defs=['SZ=%d' % sz], replace=X + [('random_point_with_order', 'stub_random_point_with_order'), ('proj_equal', 'stub_proj_equal_w')],
                    expect_reach=['accepted', 'refused'], bounds='p%d' % sz, timeout=300))
    for l in (2, 3):
        jobs.append(lambda sz=sz, l=l: symx(c, 'sampler_%d_p%d' % (l, sz), 'isog.c', entry='h_rpab', defs=['SZ=%d' % sz, 'LL=%d' % l], replace=X + [('random_point_with_order', 'stub_rwo'), ('proj_equal', 'stub_eq_avoid')], expect_reach=['sampled', 'resampled'], bounds='p%d' % sz, timeout=150))
        jobs.append(lambda sz=sz, l=l: symx(c, 'chain_%d_p%d' % (l, sz), 'isog.c', entry='h_chain', defs=['SZ=%d' % sz, 'LL=%d' % l], replace=X + [(f, 'stub_' + f) for f in ('Random_Point_AB', 'Isogeny_A', 'Isogeny_B')], expect_reach=['chain'], bounds='p%d' % sz, timeout=150))
        jobs.append(lambda sz=sz, l=l: symx(c, 'point_order_%d_p%d' % (l, sz), 'isog.c', entry='h_rpwo', defs=['SZ=%d' % sz, 'LL=%d' % l, 'TOY', 'TOY_A=%d' % (5 if sz == 610 else 4), 'TOY_B=4'], replace=X + [('random_point', 'stub_random_point_ok'), ('proj_equal', 'stub_proj_equal')], expect_reach=['sampled'], bounds='p%d exponents 5,4' % sz, timeout=150))
c.parallel(jobs)
c.finish()
