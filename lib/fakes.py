"""Small public-API extensions used as probes: peak and baseline functions with exact
integer arithmetic, and evaluators whose outcomes are scripted."""
import numpy as np
from diffpy.srmise.peaks.base import PeakFunction
from diffpy.srmise.baselines.base import BaselineFunction
from diffpy.srmise.srmiseerrors import SrMiseScalingError, SrMiseEstimationError

NAMES = ["position", "b", "c", "d"]


class IPeak(PeakFunction):
    """value(x) = w * sum_k pars[k] * x**k, exact in integers; derivative w * x**k."""

    def __init__(self, n, w=1, base=None):
        self.n, self.w = n, w
        fm = ["internal", "twice"]
        PeakFunction.__init__(self, {NAMES[i]: i for i in range(n)}, fm,
                              {"default_input": "internal", "default_output": "internal"},
                              {"n": (n, repr), "w": (w, repr)}, base)

    def getmodule(self):
        return __name__

    def _transform_parametersraw(self, pars, in_format, out_format):
        t = np.array(pars, dtype=float)
        if in_format == "twice":
            t = t / 2
        if out_format == "twice":
            t = t * 2
        return t

    def _transform_derivativesraw(self, pars, in_format, out_format):
        s = (0.5 if in_format == "twice" else 1) * (2 if out_format == "twice" else 1)
        return np.identity(self.npars) * s

    def _valueraw(self, pars, r):
        return self.w * sum(pars[k] * r ** k for k in range(self.n)) + 0.0 * r

    def _jacobianraw(self, pars, r, free):
        return [self.w * r ** k + 0.0 * r if free[k] else None for k in range(self.n)]

    def scale_at(self, pars, x, scale):
        if scale <= 0:
            raise SrMiseScalingError("negative")
        return np.array([pars[0]] + [p * scale for p in pars[1:]])

    def estimate_parameters(self, r, y):
        return np.array([float(np.mean(r))] + [1.0] * (self.n - 1))


class IBase(BaselineFunction):
    """Same arithmetic as IPeak, as a baseline; n may be 0."""

    def __init__(self, n, w=1, base=None):
        self.n, self.w = n, w
        BaselineFunction.__init__(self, {"a%d" % i: i for i in range(n)}, ["internal"],
                                  {"default_input": "internal", "default_output": "internal"},
                                  {"n": (n, repr), "w": (w, repr)}, base)

    def getmodule(self):
        return __name__

    def _transform_parametersraw(self, pars, in_format, out_format):
        return np.array(pars, dtype=float)

    def _valueraw(self, pars, r):
        return self.w * sum(pars[k] * r ** k for k in range(self.n)) + 0.0 * r

    def _jacobianraw(self, pars, r, free):
        return [self.w * r ** k + 0.0 * r if free[k] else None for k in range(self.n)]

    def estimate_parameters(self, r, y):
        return np.array([1.0] * self.n)


class Poly(IPeak):
    """IPeak whose derivative can be made to fail, with a scripted estimate."""

    def __init__(self, n, w=1):
        IPeak.__init__(self, n, w)
        self.script(None)

    def script(self, jac, after=0, est=None):
        self.jac, self.after, self.calls, self.est = jac, after, 0, est

    def _jacobianraw(self, pars, r, free):
        self.calls += 1
        if self.calls > self.after:
            if self.jac == "raise":
                raise RuntimeError("scripted failure")
            if self.jac == "missing":
                raise NotImplementedError("scripted")
        return IPeak._jacobianraw(self, pars, r, free)

    def estimate_parameters(self, r, y):
        if self.est == "refused":
            raise SrMiseEstimationError("scripted")
        if self.est is None:
            return None
        return np.array(self.est, dtype=float)


class Hat(PeakFunction):
    """value(x) = amp * max(0, 3 - |x - position|)."""

    def __init__(self, base=None):
        PeakFunction.__init__(self, {"position": 0, "amp": 1}, ["internal"],
                              {"default_input": "internal", "default_output": "internal"}, {}, base)

    def getmodule(self):
        return __name__

    def _transform_parametersraw(self, pars, in_format, out_format):
        return np.array(pars, dtype=float)

    def _transform_derivativesraw(self, pars, in_format, out_format):
        return np.identity(2)

    def _g(self, pos, r):
        return np.maximum(0.0, 3 - np.abs(r - pos))

    def _valueraw(self, pars, r):
        return pars[1] * self._g(pars[0], r)

    def _jacobianraw(self, pars, r, free):
        return [0.0 * r if free[0] else None, self._g(pars[0], r) if free[1] else None]

    def scale_at(self, pars, x, scale):
        if scale <= 0:
            raise SrMiseScalingError("not positive")
        return np.array([pars[0], pars[1] * scale])

    def estimate_parameters(self, r, y):
        return np.array([r[y.argmax()], y.max() / 3.0])


class Bump(PeakFunction):
    """value(x) = amp where x is within 0.5 of position, else 0: one data point."""

    def __init__(self, bad=False, base=None):
        self.bad = bad
        PeakFunction.__init__(self, {"position": 0, "amp": 1}, ["internal"],
                              {"default_input": "internal", "default_output": "internal"}, {}, base)

    def getmodule(self):
        return __name__

    def _transform_parametersraw(self, pars, in_format, out_format):
        return np.array(pars, dtype=float)

    def _valueraw(self, pars, r):
        return pars[1] * (np.abs(r - pars[0]) < 0.5)

    def _jacobianraw(self, pars, r, free):
        if self.bad:
            raise RuntimeError("scripted failure")
        return [0.0 * r if free[0] else None, 1.0 * (np.abs(r - pars[0]) < 0.5) if free[1] else None]

    def scale_at(self, pars, x, scale):
        raise SrMiseScalingError("not scalable")

    def estimate_parameters(self, r, y):
        return np.array([r[y.argmax()], y.max()])


class BadHat(Hat):
    """A Hat whose scaling fails in an unexpected way."""

    def scale_at(self, pars, x, scale):
        raise RuntimeError("scripted failure")
