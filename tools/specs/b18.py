ID = 'handler-reset'
PROP = 'C44'
EDITS = [('cdtb/hashes.py', '        _handler_back = signal.signal(signal.SIGINT, previous_handler)', '        _handler_back = signal.signal(signal.SIGINT, signal.default_int_handler)')]
NEEDS = 'a program that handles SIGINT itself, or two nested iterations'
BREAKS = 'after an iteration an interrupt ends the program instead of reaching the handler that was set'
DEMO = '''
import signal, sys
from cdtb.hashes import progress_iterate

def handler(*a):
    pass

for h in (signal.default_int_handler, signal.SIG_IGN, handler):
    signal.signal(signal.SIGINT, h)
    if list(progress_iterate([1, 2])) != [1, 2] or signal.getsignal(signal.SIGINT) != h:
        sys.exit("the handler was not put back")
    try:
        for x in progress_iterate([1, 2], lambda v: 1 / 0):
            signal.raise_signal(signal.SIGINT)
    except ZeroDivisionError:
        pass
    if signal.getsignal(signal.SIGINT) != h:
        sys.exit("the handler was not put back after an error")
'''
