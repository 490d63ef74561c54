"""a synthetic pulsar for demonstrations"""
import logging
import numpy as np
logging.disable(logging.CRITICAL)


class Psr:
    def __init__(self, name="J1234+56", n=60, seed=1, nm=4, step=30.0, tstart=53000.0):
        r = np.random.RandomState(seed)
        day = 86400.0
        base = np.sort(tstart + np.arange(n // 2) * step + r.uniform(0, 2, n // 2))
        # two TOAs per epoch
        self.toas = np.sort(np.concatenate([base, base + 1e-6])) * day
        n = len(self.toas)
        self.stoas = self.toas.copy()
        self.name = name
        self.residuals = r.randn(n) * 1e-6
        self.toaerrs = np.abs(r.randn(n)) * 1e-7 + 5e-7
        self.freqs = np.where(np.arange(n) % 2, 1400.0, 820.0)
        self.Mmat = np.vander((self.toas - self.toas.mean()) / (self.toas.max() - self.toas.min()), nm, increasing=True)
        self.Mmat = np.ascontiguousarray(self.Mmat)
        half = (np.arange(n) // 2) % 4 < 2
        self.backend_flags = np.where(half, "A", "B").astype(object)
        self.flags = {"f": self.backend_flags.copy(), "pta": np.array(["NANOGrav"] * n, dtype=object),
                      "fe": np.where(np.arange(n) % 2, "L", "S").astype(object), "B": self.backend_flags.copy()}
        self.telescope = np.array(["ao"] * n)
        v = r.randn(3)
        self.pos = v / np.linalg.norm(v)
        self.theta = float(np.arccos(self.pos[2]))
        self.phi = float(np.arctan2(self.pos[1], self.pos[0]) % (2 * np.pi))
        self.raj, self.decj = self.phi, np.pi / 2 - self.theta
        self._raj, self._decj = self.raj, self.decj
        self.pdist = (1.0, 0.2)
        self.pos_t = np.tile(self.pos, (n, 1))
        self.planetssb = r.randn(n, 9, 6) * 300
        self.sunssb = r.randn(n, 6) * 300
        self.fitpars = ["Offset", "F0", "F1", "RAJ"][:nm]
        self.setpars = []
        self.dm = 10.0
        self.t2pulsar = None


def array(k=2, **kw):
    names = ["J0000+00", "J1111-11", "J2222+22", "J0333-03"]
    return [Psr(names[i], seed=i + 1, **kw) for i in range(k)]
