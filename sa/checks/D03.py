import mbschecks


def run(prop, tier):
    return mbschecks.d03(prop, tier)
