import regiondrv as d


def run(ck):
    d.run(ck, [(d.join, 5000, 40000)])
