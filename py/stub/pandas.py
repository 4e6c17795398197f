"""Stands in for pandas, which is not installed here: the part of DataFrame a reader of rows needs."""


class DataFrame(object):
    def __init__(self, data=None, index=None, columns=None, dtype=None, copy=None):
        cols = None if columns is None else list(columns)
        if isinstance(data, DataFrame):
            data, cols = dict(data._d), cols or data.columns
        if data is None:
            data = {}
        if hasattr(data, "items"):
            if cols is None:
                cols = list(data)
            n = max([len(v) for v in data.values()] or [0])
            self._d = {c: list(data[c]) if c in data else [float("nan")] * n for c in cols}
            if len({len(v) for v in self._d.values()}) > 1:
                raise ValueError("All arrays must be of the same length")
        else:
            rows = [list(r) for r in data]
            if cols is None:
                cols = list(range(max([len(r) for r in rows] or [0])))
            for r in rows:
                if len(r) != len(cols):
                    raise ValueError("%d columns passed, passed data had %d columns" % (len(cols), len(r)))
            self._d = {c: [r[k] for r in rows] for k, c in enumerate(cols)}
        self.columns = cols

    @classmethod
    def from_records(cls, data, index=None, exclude=None, columns=None, coerce_float=False, nrows=None):
        return cls(data if hasattr(data, "items") else list(data), columns=columns)

    @classmethod
    def from_dict(cls, data, orient="columns", dtype=None, columns=None):
        return cls(data, columns=columns)

    def __len__(self):
        return max([len(v) for v in self._d.values()] or [0])

    def __getitem__(self, c):
        return DataFrame({k: self._d[k] for k in c}, columns=list(c)) if isinstance(c, list) else self._d[c]

    @property
    def shape(self):
        return len(self), len(self.columns)

    @property
    def empty(self):
        return not len(self) or not self.columns

    def copy(self, deep=True):
        return DataFrame(self)

    def reset_index(self, drop=False, **kw):
        return self


def concat(objs, axis=0, join="outer", ignore_index=False, **kw):
    objs = [o for o in objs if o is not None]
    if not objs:
        raise ValueError("No objects to concatenate")
    cols = []
    for o in objs:
        cols += [c for c in o.columns if c not in cols]
    return DataFrame({c: [v for o in objs for v in (o._d[c] if c in o._d else [float("nan")] * len(o))] for c in cols}, columns=cols)
