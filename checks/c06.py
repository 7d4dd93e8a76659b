from selectdrv import run as _run


def run(ck):
    _run(ck, "augment")
