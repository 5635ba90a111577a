import mbschecks


def run(prop, tier):
    return mbschecks.l02(prop, tier)
