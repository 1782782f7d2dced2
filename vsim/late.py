"""Classes and functions of a module that a reading process has not imported yet."""


class Late:
    def __init__(self, nid=None):
        self.nid = nid

    class Inner:
        pass


def fn(x=0):
    return x
