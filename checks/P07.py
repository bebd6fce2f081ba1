from vlib import *
c = Check('P07', 'bounded-symbolic', 'ct_compare/ct_cmov: all contents, lengths 0..24 (quick) / 0..96 (thorough); swap_points, digit and field comparisons: full width, all four parameter sets',
          stubs=['fpsub/fpcorrection (h_equal only): canonical difference, zero iff equal (established by P01)'])
th = []
def job(name, entry, sz, functions, defs=(), **kw):
    th.append(lambda: cbmc(c, name, 'ct.c', entry=entry, defs=['SZ=%d' % sz, 'CODEC_NB=8', *defs], unwind=1300, timeout=700, functions=functions, bounds='p%d' % sz, **kw))
L = 24 if c.quick else 96
for sz in SIZES:
    job('compare_p%d' % sz, 'h_compare', sz, ['ct_compare'], ['LEN=%d' % L])
    job('cmov_p%d' % sz, 'h_cmov', sz, ['ct_cmov'], ['LEN=%d' % L])
    job('swap_p%d' % sz, 'h_swap', sz, ['swap_points'])
    job('lessthan_p%d' % sz, 'h_lessthan', sz, ['is_digit_lessthan_ct', 'is_digit_zero_ct', 'is_digit_nonzero_ct', 'fp_lt', 'mp_sub'])
    job('equal_p%d' % sz, 'h_equal', sz, ['fp_equal', 'fp2_equal', 'ct_compare'])
c.parallel(th)
c.finish()
