from comm import *
CHECK = check('P04', ['MQ'], False)
