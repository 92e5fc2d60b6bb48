"""A data source whose answers are whole-number functions of the position, and that can fail on request."""
import json, os

import numpy

from geomodelgrids.create.core.datasrc import DataSrc

OFF = -77777.0     # asked at a point that is not where any grid point can be
CALLS = [0]
FAIL_AT = [None]
HOW = ["raise"]


class SourceFailure(Exception):
    pass


def elevation(p, which, X, Y):
    a, b, c, m, shift = p["elev"][which]
    return (a * X + b * Y + c * ((X * Y) % 97)) % m - shift


class LatticeSource(DataSrc):
    def __init__(self, config=None):
        super().__init__()
        self.p = json.loads(config["lattice"]["params"])

    def initialize(self):
        pass

    def _count(self):
        CALLS[0] += 1
        if FAIL_AT[0] is not None and CALLS[0] >= FAIL_AT[0]:
            if HOW[0] == "die":
                os._exit(37)
            raise SourceFailure("call %d" % CALLS[0])

    def _whole(self, v, tick, k):
        f = numpy.asarray(v, dtype="f8") * (k / tick)
        r = numpy.rint(f)
        return r.astype("i8"), numpy.abs(f - r) < 1e-3

    def _surface(self, points, which):
        self._count()
        X, okx = self._whole(points[:, :, 0], self.p["tick"], self.p["k"])
        Y, oky = self._whole(points[:, :, 1], self.p["tick"], self.p["k"])
        e = elevation(self.p, which, X, Y) * self.p["vtick"]
        e = numpy.where(okx & oky & (points[:, :, 2] == 0.0), e, OFF)
        return e.reshape(e.shape + (1,))

    def get_top_surface(self, points):
        return self._surface(points, "top_surface")

    def get_topography_bathymetry(self, points):
        return self._surface(points, "topography_bathymetry")

    def get_values(self, block, top_surface, topo_bathy, batch=None):
        self._count()
        p = self.p
        points = block.generate_points(top_surface, batch)
        X, okx = self._whole(points[..., 0], p["tick"], p["k"])
        Y, oky = self._whole(points[..., 1], p["tick"], p["k"])
        Z, okz = self._whole(points[..., 2], p["vtick"], 16)
        ok = okx & oky & okz
        T = numpy.zeros(Z.shape, dtype="i8")
        if topo_bathy:
            t = numpy.asarray(block.get_surface(topo_bathy, batch))
            if t.shape != points.shape[:2]:
                t = numpy.full(points.shape[:2], OFF)
            t, okt = self._whole(t, p["vtick"], 16)
            T[:] = t[:, :, numpy.newaxis]
            ok &= okt[:, :, numpy.newaxis]
        values = numpy.zeros(points.shape[:3] + (len(p["val"]),), dtype="f8")
        for i, (a, b, c, d, m) in enumerate(p["val"]):
            v = (a * X + b * Y + c * Z + d * T + (X * Y) % 89) % m
            values[..., i] = numpy.where(ok, v, OFF)
        return values
