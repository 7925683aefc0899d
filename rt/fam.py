"""Declaration of case families."""


class Family:
    """boost: share of the cases whose lengths and row counts are drawn up to tens of times larger (see gen.boost)."""

    def __init__(self, fn, quick, thorough, name=None, flavors=("plain",), boost=0):
        self.fn, self.quick, self.thorough, self.boost = fn, quick, thorough, boost
        self.name = name or fn.__name__
        self.flavors = flavors
