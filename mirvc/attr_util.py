"""Which property a failed obligation of the decoding utilities (or a concrete disagreement) belongs to."""
BASE = {'decode': 'C22', 'query': 'C23', 'field': 'C24'}


def props(cat, root, q=None):
    return {'C25'} if cat == 'utf8' else {BASE[root]}
