from . import locks
RULE, LEVEL, ASSUME = locks.RULES['C01'], 'other', locks.ASSUMES['C01']
run = locks.run
