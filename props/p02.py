from flow import *
CHECK = check('P02', gen_p02, [('exec', 'a')])
