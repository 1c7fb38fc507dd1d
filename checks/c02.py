import c01


def run(c, prog):
    c01.run(c, prog, 'C02')
