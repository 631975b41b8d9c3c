available = False


def enable():
    pass


def disable():
    pass
