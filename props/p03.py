from flow import *
CHECK = check('P03', gen_p03, [('build', 'r')])
