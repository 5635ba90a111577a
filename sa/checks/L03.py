import mbschecks


def run(prop, tier):
    return mbschecks.l03(prop, tier)
