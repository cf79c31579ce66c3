from harness import c07

ASSUMPTIONS = c07.ASSUMPTIONS


def cases(tier):
    return c07.cases(tier, "C08")
