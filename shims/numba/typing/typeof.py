from ..types import Record


def typeof(value, *args):
    return Record('typeof')
