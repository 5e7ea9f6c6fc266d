from checks import search
def run(c):
    search.run(c, 'hill')
