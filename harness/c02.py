from harness import partition_h as h

RULE = h.RULE


def cases(seed, tier):
    return h.cases(seed, tier, True)


def check(case):
    return h.check(case, True)
