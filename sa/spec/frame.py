"""A stand-in for a data frame: named columns, attributes, and a record of the rows that were dropped."""


class Frame:
    def __init__(self, cols):
        self.cols = cols
        self.attrs = {}
        self.dropped = []

    def __getitem__(self, name):
        return self.cols[name]

    def __setitem__(self, name, value):
        self.cols[name] = value

    def __getattr__(self, name):
        return self.cols[name]

    def get(self, name, default=None):
        return self.cols.get(name, default)

    def pop(self, name):
        return self.cols.pop(name)

    def assign(self, **kwargs):
        new = self.copy()
        for k in kwargs:
            new.cols[k] = kwargs[k]
        return new

    def insert(self, loc, column, value):
        self.cols[column] = value

    def dropna(self, axis=0, how='any', thresh=None, subset=None, inplace=False):
        if inplace:
            self.dropped = self.dropped + [(how, subset)]
            return None
        new = self.copy()
        new.dropped = self.dropped + [(how, subset)]
        return new

    def reset_index(self, level=None, drop=False, inplace=False):
        if inplace:
            return None
        return self.copy()

    def drop(self, labels=None, axis=0, index=None, columns=None, level=None, inplace=False):
        new = self if inplace else self.copy()
        names = labels if columns is None else columns
        if isinstance(names, str):
            names = [names]
        for n in names:
            del new.cols[n]
        return None if inplace else new

    def rename(self, mapper=None, index=None, columns=None, axis=None, copy=None, inplace=False):
        new = {}
        for k in self.cols:
            new[columns[k] if k in columns else k] = self.cols[k]
        if inplace:
            self.cols = new
            return None
        f = Frame(new)
        f.attrs = self.attrs
        f.dropped = self.dropped
        return f

    def copy(self, deep=True):
        new = Frame(dict(self.cols))
        new.attrs = dict(self.attrs)
        new.dropped = list(self.dropped)
        return new


def mkcols(names, values):
    return dict(zip(names, values))
