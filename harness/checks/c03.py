from checks import importing as I


def run(c):
    I.run(c, [(I.paths, c.n(400, 4000)), (I.long, c.n(4, 12)),
              (lambda r: I.bulk(r, c.n(160000, 400000), True), c.n(8, 40))])
