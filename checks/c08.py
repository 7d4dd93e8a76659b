import regiondrv as d


def run(ck):
    d.run(ck, [(d.edit, 2500, 20000), (d.grow, 2500, 20000)])
