"""Stand-in for shapely.prepared: nothing is prepared."""
from _shimlib import ShimUnsupported


class PreparedGeometry:
    def __init__(self, context):
        self.context = context

    def contains(self, other):
        return self.context.contains(other)

    def covers(self, other):
        return self.context.covers(other)

    def intersects(self, other):
        return self.context.intersects(other)

    def disjoint(self, other):
        return self.context.disjoint(other)

    def __getattr__(self, name):
        raise ShimUnsupported('shapely.prepared.' + name)


def prep(ob):
    return PreparedGeometry(ob)
