"""Which simulated runs decide which property: (profile, number of runs of a quick check)."""


def each(kind, n, engines='mm rm cm xm rx'):
    return [('%s-%s' % (kind, e), n) for e in engines.split()]


F = 'rm cm xm rx'
PLAN = {
    'C01': each('seqf', 160, F) + each('recoverf', 160, 'rm cm xm') + each('durable', 120, 'rm cm xm') + each('seq', 80) + each('conc', 160) + each('tight', 160) + each('concf', 320, F) + each('chaos', 480, 'rm cm xm') + each('drill', 160, F) + each('mainf', 80, F) + each('big', 6) + each('bigf', 8, F) + each('seqlag', 80, 'rm cm xm'),
    'C02': each('seq', 160) + each('seqf', 120, F) + each('two', 160, 'rm cm') + each('conc', 240) + each('tight', 480) + each('concf', 160, F) + each('skew', 160, 'rm cm') + each('life', 160) + each('big', 6),
    'C03': each('seq', 240) + each('filter', 120) + each('range', 80) + each('scores', 80) + each('conc', 240) + each('tight', 160) + each('life', 160) + each('seqlag', 200, 'rm cm xm') + each('biglag', 32, 'rm cm xm') + each('big', 6),
    'C04': each('filter', 480) + each('scores', 160) + each('range', 160),
    'C05': each('seq', 160) + each('seqf', 80, F) + each('two', 120, 'rm cm') + each('big', 8) + each('conc', 240) + each('tight', 160) + each('concf', 160, F) + each('skew', 160, 'rm cm') + each('life', 160) + each('drill', 120, F) + each('scores', 80) + each('day', 40),
    'C06': each('seq', 160) + each('seqf', 80, F) + each('two', 120, 'rm cm') + each('big', 12) + each('conc', 240) + each('tight', 160) + each('concf', 160, F) + each('skew', 160, 'rm cm') + each('life', 240) + each('drill', 120, F) + each('scores', 160) + each('day', 40),
    'C07': each('seq', 160) + each('scores', 120) + each('two', 120, 'rm cm') + each('conc', 160) + each('tight', 400) + each('concdiag', 160) + each('life', 160),
    'C08': each('seq', 160) + each('names', 120) + each('two', 80, 'rm cm') + each('conc', 240) + each('tight', 320) + each('life', 120) + each('big', 8) + each('bigf', 12, F),
    'C09': each('seq', 240) + each('names', 120) + each('seqf', 80, F) + each('conc', 160) + each('tight', 320) + each('concf', 160, F) + each('life', 160) + each('big', 8) + each('bigf', 12, F),
    'C10': each('expiry', 320) + each('seq', 80) + each('conccfg', 320) + each('lagttl', 160, 'rm cm') + each('ttllag', 240, 'rm cm xm') + each('drill', 120, F) + each('big', 8) + each('day', 48),
    'C11': each('expiry', 400) + each('conccfg', 320) + each('drill', 120, F) + each('big', 16) + each('day', 48) + each('ttllag', 80, 'rm cm xm'),
    'C12': each('recover', 240, 'rm cm xm') + each('recoverf', 240, 'rm cm xm') + each('recoverbig', 8, 'rm cm xm') + each('chaos', 480, 'rm cm xm') + each('lagwipe', 240, 'rm cm') + each('drill', 320, 'rm cm xm') + each('day', 32, 'rm cm xm'),
    'C13': each('names', 560),
    'C14': each('seq', 160, 'rm cm') + each('names', 240, 'rm cm') + each('two', 200, 'cm') + each('seqf', 160, 'cm') + each('conc', 320, 'cm') + each('tight', 320, 'cm') + each('concf', 320, 'cm') + each('chaos', 160, 'cm') + each('skew', 160, 'cm') + each('life', 120, 'cm') + each('drill', 160, 'cm'),
    'C15': each('flush', 480) + each('main', 48) + [('concflush-mm', 640)],
    'C16': each('seq', 240) + each('two', 160, 'rm cm') + each('seqf', 80, F) + each('concdiag', 400) + each('life', 120),
    'C17': each('cfgf', 160, F) + each('expiry', 200) + each('names', 160) + each('flush', 80) + each('conccfg', 400) + each('main', 80) + each('cfgtight', 400) + each('day', 32),
    'C18': each('seq', 160) + each('names', 120) + each('recover', 80, 'rm cm xm') + each('seqf', 80, F) + each('conc', 320) + each('concf', 160, F),
    'C19': each('audit', 160) + each('names', 120) + each('auditf', 160, F) + each('concdiag', 320) + each('main', 80) + each('mainf', 80, F) + each('sink', 96, 'mm rm cm rx') + each('seqlag', 120, 'rm cm xm') + each('biglag', 16, 'rm cm xm') + each('scores', 120),
    'C20': each('main', 240) + each('mainf', 240, F) + each('day', 32),
    'C21': [('race-conc', 480), ('race-tight', 480), ('race-conccfg', 320), ('race-concflush', 480), ('race-concdiag', 240), ('conc-mm', 480), ('tight-mm', 480), ('concflush-mm', 480)],
    'C22': each('seq', 160) + each('names', 120) + each('expiry', 80) + each('conc', 320) + each('conccfg', 160),
    'C23': each('scores', 400) + each('seq', 80) + each('recover', 80, 'rm cm xm') + each('life', 240),
    'C24': each('cfgf', 80, F) + each('seqf', 320, F) + each('recoverf', 160, 'rm cm xm') + each('concf', 400, F) + each('chaos', 240, 'rm cm xm') + each('drill', 160, F) + each('bigf', 40, F),
    'C25': each('seqf', 320, F) + each('recoverf', 160, 'rm cm xm') + each('concf', 320, F) + each('drill', 240, F) + each('bigf', 24, F) + each('prefixf', 160, F) + each('day', 32),
    'C26': each('lag', 800, 'rm cm xm') + each('lagwipe', 480, 'rm cm xm') + each('lagttl', 160, 'rm cm') + each('ttllag', 320, 'rm cm xm') + each('seqlag', 240, 'rm cm xm') + each('biglag', 48, 'rm cm xm'),
    'C27': each('big', 16) + each('bigf', 24, F) + [('huge-mm', 16), ('huge-rx', 16)],
    'C28': each('start', 640, F),
    'C29': each('prefix', 240) + each('big', 12) + each('seq', 80) + each('seqf', 80, F) + each('concdiag', 240) + each('expiry', 120) + each('prefixf', 160, F) + each('day', 40),
    'C30': [('wire-mm', 5000)],
}

OPS = ['history', 'add', 'pull', 'ack', 'nack', 'remove', 'count', 'get', 'timeout', 'unlock', 'ttl', 'max', 'recovery']
ORACLES = {
    'C01': ['history', 'pull', 'count', 'drain'], 'C02': ['history', 'pull'], 'C03': ['pull'], 'C04': ['pull'], 'C05': ['history', 'timeout'], 'C06': ['history', 'unlock'],
    'C07': ['history', 'ack', 'nack'], 'C08': ['history', 'remove'], 'C09': ['history', 'add'], 'C10': ['history', 'ttl'], 'C11': ['history', 'max'], 'C12': ['history', 'recovery'], 'C13': OPS,
    'C14': OPS + ['foreign'], 'C15': ['flush'], 'C16': ['content'], 'C17': ['editq', 'getq'], 'C18': ['content'], 'C19': ['audit'],
    'C20': ['shutdown'], 'C21': OPS, 'C22': ['count', 'get'], 'C23': ['content'], 'C24': OPS, 'C25': ['history', 'timeout', 'unlock', 'ttl', 'max'],
    'C26': ['history', 'drain', 'pull'], 'C27': OPS, 'C28': ['startup'], 'C29': ['counters', 'metrics'], 'C30': ['endpoint', 'connection'],
}

# Properties which are broken by a process that dies or never answers.
FATAL = {'C01', 'C20', 'C21', 'C24', 'C25'}

# How the oracle of a property works, for the manifest.
NOTE = {}
# Why a property has no check.
WHYNOT = {}
