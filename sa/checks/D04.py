import mbschecks


def run(prop, tier):
    return mbschecks.d04(prop, tier)
