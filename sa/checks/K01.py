import mbschecks


def run(prop, tier):
    return mbschecks.k01(prop, tier)
