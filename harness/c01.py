from harness import partition_h as h

RULE = h.RULE


def cases(seed, tier):
    return h.cases(seed, tier, False)


def check(case):
    return h.check(case, False)
