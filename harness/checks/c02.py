from checks import importing as I
def run(c):
    I.run(c, [(I.histories, c.n(250, 3000))])
