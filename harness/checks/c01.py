from checks import importing as I
def run(c):
    I.run(c, [(I.imports, c.n(400, 4000)), (lambda r: I.imports(r, True), c.n(20, 400)),
              (lambda r: I.bulk(r, c.n(160000, 400000)), c.n(8, 40))])
