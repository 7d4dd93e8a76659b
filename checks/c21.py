import regiondrv as d


def run(ck):
    d.run(ck, [(d.match, 5000, 30000), (d.reduce, 800, 6000), (d.scale, 1500, 8000)])
