import mbschecks


def run(prop, tier):
    return mbschecks.d01(prop, tier)
