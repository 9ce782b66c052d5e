from comm import *
CHECK = check('P06', ['MQ', 'DB', 'SD'], True)
