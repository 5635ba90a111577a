import mbschecks


def run(prop, tier):
    return mbschecks.k03(prop, tier)
