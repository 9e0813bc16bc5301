"""Helpers of the Python-level drivers: seeded choices, a time budget, reporting."""
import os, random, sys, time

SEED = int(os.environ.get('VERIF_SEED', '1'))
THOROUGH = os.environ.get('VERIF_TIER', 'quick') == 'thorough'
rnd = random.Random(SEED)
log = []
iters = 0


def note(x):
    """remember a step of the current history"""
    log.append(x)


def fail(msg):
    text = msg + '\n' + '\n'.join(map(repr, log[-60:]))
    print('PTV-FAIL ' + text[:3500])
    sys.stdout.flush()
    rep = os.environ.get('PTV_REP')
    if rep:
        open(rep, 'w').write(text)
    os._exit(11)


def check(c, msg):
    if not c:
        fail(msg)


def run(one, secs):
    """call one() repeatedly within the budget"""
    global iters
    t = time.time() + secs * (15 if THOROUGH else 1)
    rep = os.environ.get('PTV_REP')
    try:
        while time.time() < t:
            del log[:]
            one()
            iters += 1
    except SystemExit:
        raise
    except BaseException:
        import traceback
        fail('unexpected exception: ' + traceback.format_exc())
    print('PTV-DONE iters=%d' % iters)
    sys.stdout.flush()
    os._exit(0)


def raises(f, *exc):
    """(True, exception) if f() raises one of exc (any other propagates), else (False, result)"""
    try:
        return False, f()
    except exc as e:
        return True, e
