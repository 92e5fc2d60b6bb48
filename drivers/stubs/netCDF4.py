"""Stands in for the netCDF4 package: a dataset with attributes and variables, kept in a JSON file."""
import json

import numpy


class Variable:
    """Like netCDF4's: arrays are read as masked ones, with the fill value and the missing value of the variable masked."""

    def __init__(self, data, units, long_name, missing=()):
        data = numpy.array(data)
        self._data = numpy.ma.masked_array(data, mask=numpy.isin(data, numpy.array(missing, dtype=data.dtype)))
        self.units, self.long_name = units, long_name
        self.size, self.shape = self._data.size, self._data.shape

    def __getitem__(self, where):
        return self._data[where].copy()


class Dataset:
    def __init__(self, filename, mode="r"):
        if mode != "r":
            raise ValueError("read only")
        d = json.load(open(filename))
        self.__dict__.update(d["attrs"])
        self.variables = {n: Variable(numpy.array(v["data"], dtype=v["dtype"]), v["units"], v["long_name"], v.get("missing", ())) for n, v in d["variables"]}

    def close(self):
        pass
