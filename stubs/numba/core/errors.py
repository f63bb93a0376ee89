class TypingError(Exception): pass
class NumbaError(Exception): pass
