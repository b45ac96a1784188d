"""A stand-in for a netCDF data set with the given variables."""


class Dataset:
    def __init__(self, variables, dimensions):
        self.variables = variables
        self.dimensions = dimensions
        self.closed = False

    def __getitem__(self, name):
        return self.variables[name]

    def close(self):
        self.closed = True

    def isopen(self):
        return not self.closed

    def set_auto_mask(self, flag):
        pass

    def set_auto_maskandscale(self, flag):
        pass

    def set_always_mask(self, flag):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


class Client:
    """A stand-in for the climate data store."""

    def retrieve(self, name, request, target=None):
        return target


class Tree:
    """A stand-in for a nearest-neighbour search tree."""

    def __init__(self, kind, points, metric):
        self.kind = kind
        self.points = points
        self.metric = metric

    def query(self, X, k=1, return_distance=True):
        return X


def upward(x):
    """the levels of a file are stored from the top of the atmosphere down"""
    return x[::-1]
