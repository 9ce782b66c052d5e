from comm import *
CHECK = check('P05', ['DB'], False)
