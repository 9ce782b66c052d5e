from flow import *
CHECK = check('P01', gen_p01, [('blk', 'out'), ('exec', 'ins')])
