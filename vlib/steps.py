"""Processing steps of a user."""


def refuse(st, code, end=None):
    """Give up on data of a station (that start before some time)."""
    for tr in st:
        if '%s.%s' % (tr.stats.network, tr.stats.station) == code and (
                end is None or tr.stats.starttime < end):
            raise ValueError('refused')
    return st
