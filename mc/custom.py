"""A user's own components, for the selection by attribute or by module and class"""
from quocslib.optimizationalgorithms.dCRABAlgorithm import dCRABAlgorithm
from quocslib.optimizationalgorithms.DirectSearchAlgorithm import DirectSearchAlgorithm
from quocslib.gradientfreemethods.NelderMead import NelderMead
from quocslib.gradientfreemethods.CMAES import CMAES
from quocslib.pulses.basis.Fourier import Fourier
from quocslib.pulses.superparameter.Uniform import Uniform

LOG = []


class OwnDCRAB(dCRABAlgorithm):
    def run(self):
        LOG.append("OwnDCRAB")
        super().run()


class OwnDirectSearch(DirectSearchAlgorithm):
    def run(self):
        LOG.append("OwnDirectSearch")
        super().run()


class OwnNM(NelderMead):
    def run_dsm(self, *a, **kw):
        LOG.append("OwnNM")
        return super().run_dsm(*a, **kw)


class OwnCMA(CMAES):
    def run_dsm(self, *a, **kw):
        LOG.append("OwnCMA")
        return super().run_dsm(*a, **kw)


class OwnBasis(Fourier):
    def _get_shaped_pulse(self):
        LOG.append("OwnBasis")
        return super()._get_shaped_pulse()


class OwnDistribution(Uniform):
    def set_random_super_parameter(self):
        LOG.append("OwnDistribution")
        super().set_random_super_parameter()
