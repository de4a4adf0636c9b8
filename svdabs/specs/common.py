"""Small references shared by several checks."""


def nothing():
    return []


def nothing_more():
    return [], []
