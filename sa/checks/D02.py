import mbschecks


def run(prop, tier):
    return mbschecks.d02(prop, tier)
