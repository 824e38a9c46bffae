"""Which property a failed obligation of the loop-free functions belongs to."""


def props(cat, root, q=None):
    return {{'byte': 'C14', 'codes': 'C21', 'handler': 'C26'}[root]}
