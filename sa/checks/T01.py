import mbsinput


def run(prop, tier):
    return mbsinput.run(prop, tier)
