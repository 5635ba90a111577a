import mbschecks


def run(prop, tier):
    return mbschecks.l01(prop, tier)
