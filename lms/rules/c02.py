from . import locks
RULE, LEVEL, ASSUME = locks.RULES['C02'], 'other', locks.ASSUMES['C02']
run = locks.run
