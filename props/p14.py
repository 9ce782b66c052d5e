import conv
from vf import *
A = dict(harness='conv', targets=['efl', 'rbbl', 'pml', 'rrl', 'rcl', 'visr'], trace='ConvTrace', chunk=60)
CHECK = Check('P14', [
    dict(A, name='fade', mc=[('ConvMC', 'ConvMC'), ('ConvMC', 'ConvMC3'), ('ConvMC', 'ConvMC2', 'thorough')], gen=conv.family('xf', 400, 5000), corrupt=[('blk', 'y'), ('rmr', 'r'), ('setf', 'r')]),
    dict(A, name='interp', gen=conv.family('ip', 400, 5000), corrupt=[('blk', 'y'), ('rmr', 'r'), ('ipol', 'r')]),
], ['samples and impulse responses are integers, gains and weights are multiples of 1/4; results are compared after rounding to the exact grid'])
