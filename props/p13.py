import conv
from vf import *
CHECK = Check('P13', [
    dict(name='conv', harness='conv', targets=['efl', 'rbbl', 'pml', 'rrl', 'rcl', 'visr'], trace='ConvTrace',
         gen=conv.family('mc', 700, 8000), chunk=60, mc=[('ConvMC', 'ConvMC1')], corrupt=[('blk', 'y'), ('rmr', 'r'), ('setr', 'r')]),
], ['samples and impulse responses are integers, gains are multiples of 1/4; results are compared after rounding to the exact grid'])
