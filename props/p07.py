from flow import *
CHECK = check('P07', gen_p07, [('exec', 'bc'), ('exec', 'rc')])
