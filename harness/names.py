"""Names shared by generators and the universe; imports nothing."""
BIN = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'divmod', 'pow',
       'lshift', 'rshift', 'and', 'xor', 'or']
IOPS = [b for b in BIN if b != 'divmod']
CMP = ['lt', 'le', 'eq', 'ne', 'gt', 'ge']
UN = ['neg', 'pos', 'abs', 'invert']
CONV = ['int', 'float', 'index']
SPECIALS = (['__%s__' % b for b in BIN] + ['__r%s__' % b for b in BIN]
            + ['__i%s__' % b for b in IOPS] + ['__%s__' % c for c in CMP]
            + ['__%s__' % u for u in UN] + ['__%s__' % c for c in CONV]
            + ['__hash__', '__bool__', '__len__', '__length_hint__',
               '__str__', '__repr__', '__call__', '__getitem__',
               '__setitem__', '__delitem__', '__iter__', '__next__',
               '__contains__', '__getattr__'])
ATTRS = ['a', 'b', 'c', 'n', 'x_y', '_p', '__p', '', 'é', '名', 'a b', '\udc80',
         'items', 'check', 'keys']
EXCNAMES = ['Unauthorized', 'ForbiddenAttribute', 'AttributeError',
            'TypeError', 'ValueError', 'KeyError', 'IndexError',
            'StopIteration', 'RuntimeError', 'KeyboardInterrupt',
            'GeneratorExit', 'MemoryError', 'RecursionError',
            'OverflowError', 'NotImplementedError', 'ZeroDivisionError',
            'Odd', 'Custom', 'Denied2', 'LookupError']
METHODS = {
    'l': ['append', 'pop', 'copy', '__reversed__', 'index', 'count', 'sort'],
    't': ['index', 'count'], 's': ['upper', 'split', 'join'],
    'y': ['upper', 'decode'], 'ba': ['append', 'copy'],
    'd': ['keys', 'values', 'items', 'get', 'copy', 'pop', 'setdefault'],
    'set': ['copy', 'union', 'add', 'pop'], 'fs': ['copy', 'union'], 'it': []}
