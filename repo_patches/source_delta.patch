From 23a1c153bdbd3fee94d896ae62ef55006d4572ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 01/24] fix: merge overlapping cliques (np.in1d never matches a
 Python set)

---
 enterprise/signals/signal_base.py | 4 ++--
 enterprise/signals/utils.py       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index f6da48a..bbec999 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -590,7 +590,7 @@ class PTA(object):
                 # I don't think this code is ever exercised...
                 # if maxidx == -1, then allidx = [-1]
                 if len(allidx) > 1:
-                    self._cliques[np.in1d(self._cliques, allidx)] = self._clcount
+                    self._cliques[np.isin(self._cliques, list(allidx - {-1}))] = self._clcount
 
                 self._clcount = self._clcount + 1
             else:
@@ -602,7 +602,7 @@ class PTA(object):
                 # since cliques are "contagious", reassign all the other
                 # clique indices that we found to maxidx
                 if len(allidx) > 1:
-                    self._cliques[np.in1d(self._cliques, allidx)] = maxidx
+                    self._cliques[np.isin(self._cliques, list(allidx - {-1}))] = maxidx
 
     # add cliques from individual pulsar phis; these will never overlap
     # TO DO: at this point Phi could be defined as a smarter KernelMatrix!
diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 333368d..e4fbabd 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -250,7 +250,7 @@ class KernelMatrix(np.ndarray):
         else:
             self._cliques[idxs] = maxidx
             if len(allidx) > 1:
-                self._cliques[np.in1d(self._cliques, allidx)] = maxidx
+                self._cliques[np.isin(self._cliques, list(allidx - {-1}))] = maxidx
 
     def add(self, other, idx):
         if other.ndim == 2 and self.ndim == 1:
-- 
2.43.0


From f6c5bb3d17ce360deeeb70453f372ceec9ec2c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 02/24] fix: do not hand out the same mutable matrix for all
 cached sparse ECORR values

---
 enterprise/signals/white_signals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/white_signals.py b/enterprise/signals/white_signals.py
index f963fee..d018a6d 100644
--- a/enterprise/signals/white_signals.py
+++ b/enterprise/signals/white_signals.py
@@ -264,11 +264,13 @@ def EcorrKernelNoise(
             self._Ns = signal_base.csc_matrix_alt(Ns)
 
         def _get_ndiag_sparse(self, params):
+            # return a new matrix, since it will be cached
+            Ns = self._Ns.copy()
             for p in self._params:
                 for idx in self._idxs[p]:
                     if len(idx) > 1:
-                        self._Ns[np.ix_(idx, idx)] = 10 ** (2 * self.get(p, params))
-            return self._Ns
+                        Ns[np.ix_(idx, idx)] = 10 ** (2 * self.get(p, params))
+            return Ns
 
         def _get_ndiag_sherman_morrison(self, params):
             slices, jvec = self._get_jvecs(params)
-- 
2.43.0


From c35c8fe490249fcd16aee5bbcf224ec3818c4d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 03/24] fix: do not hand out the same mutable array for all
 cached ephemeris delays

---
 enterprise/signals/deterministic_signals.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/enterprise/signals/deterministic_signals.py b/enterprise/signals/deterministic_signals.py
index d0ee0db..9ba57cd 100644
--- a/enterprise/signals/deterministic_signals.py
+++ b/enterprise/signals/deterministic_signals.py
@@ -190,18 +190,17 @@ def PhysicalEphemerisSignal(
                 pos_t = np.array([np.interp(avetoas, psr.toas, psr.pos_t[:, aa]) for aa in range(3)]).T
                 self._pos_t = pos_t
 
-            # initialize delay
-            self._delay = np.zeros(len(psr.toas))
-
         # this defaults to all parameters
         @signal_base.cache_call("delay_params")
         def get_delay(self, params):
             if use_epoch_toas:
                 delay = self._wf[""](toas=self._avetoas, planetssb=self._planetssb, pos_t=self._pos_t, params=params)
 
+                # return a new array, since it will be cached
+                ret = np.zeros(self._ntoas)
                 for slc, val in zip(self._uinds, delay):
-                    self._delay[slc] = val
-                return self._delay
+                    ret[slc] = val
+                return ret
             else:
                 delay = self._wf[""](params=params)
                 return delay
-- 
2.43.0


From 74bed362d7bec2c0019c71dd872383b5ac19f222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 04/24] fix: return a new KernelMatrix from each
 BasisGP.get_phi call

---
 enterprise/signals/gp_signals.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index a504a41..189414d 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -102,9 +102,6 @@ def BasisGP(
             nc = sum(F.shape[1] for F in basis.values())
             self._basis = np.zeros((len(self._masks[0]), nc))
 
-            # TODO: should this be defined here? it will cache phi
-            self._phi = KernelMatrix(nc)
-
             self._slices = {}
             nctot = 0
             for key, mask in zip(self._keys, self._masks):
@@ -174,10 +171,11 @@ def BasisGP(
             def get_phi(self, params):
                 self._construct_basis(params)
 
+                phi = KernelMatrix(self._basis.shape[1])
                 for key, slc in self._slices.items():
                     phislc = self._prior[key](self._labels[key], params=params)
-                    self._phi = self._phi.set(phislc, slc)
-                return self._phi
+                    phi = phi.set(phislc, slc)
+                return phi
 
             def get_phiinv(self, params):
                 return self.get_phi(params).inv()
-- 
2.43.0


From 7e61cb130bda0b35c950a59d8758957aab43bc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 05/24] fix: cache GP delays by the coefficient parameters
 actually used, whatever their name

---
 enterprise/signals/gp_signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index 189414d..dce6e61 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -132,7 +132,7 @@ def BasisGP(
             # MV: could assign this to a data member at initialization
             @property
             def delay_params(self):
-                return [pp.name for pp in self.params if "_coefficients" in pp.name]
+                return [pp.name for pp in self._coefficients.values()]
 
             @signal_base.cache_call(["basis_params", "delay_params"])
             def get_delay(self, params={}):
@@ -355,7 +355,7 @@ def BasisCommonGP(priorFunction, basisFunction, orfFunction, coefficients=False,
 
             @property
             def delay_params(self):
-                return [pp.name for pp in self.params if "_coefficients" in pp.name]
+                return [pp.name for pp in self._coefficients.values()]
 
             @signal_base.cache_call(["basis_params", "delay_params"])
             def get_delay(self, params={}):
-- 
2.43.0


From 9750181023faa518fe44b6c6795dd306a5883d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 06/24] fix: drop cached results when constants are set with
 set_default_params

---
 enterprise/signals/signal_base.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index bbec999..bf854de 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -120,8 +120,15 @@ class Signal(object):
         except KeyError:
             return self._params[parname].value
 
+    def cache_clear(self):
+        """Drop all results cached by this signal."""
+        for attr in [attr for attr in self.__dict__ if attr.startswith("_cache_")]:
+            del self.__dict__[attr]
+
     def set_default_params(self, params):
         """Set default parameters."""
+        self.cache_clear()
+
         for kw, par in self._params.items():
             if par.name in params and isinstance(par, ConstantParameter):
                 msg = "Setting {} to {}".format(par.name, params[par.name])
@@ -814,12 +821,13 @@ def SignalCollection(metasignals):  # noqa: C901
                     msg += "may not work correctly for this signal."
                     logger.error(msg)
 
-        # def cache_clear(self):
-        #     for instance in [self] + self.signals:
-        #         kill = [attr for attr in instance.__dict__ if attr.startswith("_cache")]
-        #
-        #        for attr in kill:
-        #            del instance.__dict__[attr]
+        def cache_clear(self):
+            """Drop all results cached by this collection and its signals."""
+            for attr in [attr for attr in self.__dict__ if attr.startswith("_cache_") or attr in ("_idx", "_Fmat")]:
+                del self.__dict__[attr]
+
+            for signal in self._signals:
+                signal.cache_clear()
 
         # a candidate for memoization
         @property
@@ -874,6 +882,8 @@ def SignalCollection(metasignals):  # noqa: C901
             for signal in self._signals:
                 signal.set_default_params(params)
 
+            self.cache_clear()
+
         def _combine_basis_columns(self, signals):
             """Given a set of Signal objects, each of which may return an
             Fmat (through get_basis()), return a dict (indexed by signal)
-- 
2.43.0


From f5815b80ce42beaccc422841200647d446f8643e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 07/24] fix: combine basis columns by column number, also after
 a basis with varying parameters

---
 enterprise/signals/signal_base.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index bf854de..bb984ca 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -894,7 +894,7 @@ def SignalCollection(metasignals):  # noqa: C901
             matrix to save computations when calling `get_basis` later.
             """
 
-            idx, hashlist, cc, nrow = {}, [], 0, None
+            idx, hashes, cc, nrow = {}, {}, 0, None
             for signal in signals:
                 Fmat = signal.get_basis()
 
@@ -907,18 +907,17 @@ def SignalCollection(metasignals):  # noqa: C901
                         for i, column in enumerate(Fmat.T):
                             colhash = hash(column.tobytes())
 
-                            if signal.basis_combine and colhash in hashlist:
+                            if signal.basis_combine and colhash in hashes:
                                 # if we're combining the basis for this signal
                                 # and we have seen this column already, make a note
                                 # of where it was
 
-                                j = hashlist.index(colhash)
-                                idx[signal].append(j)
+                                idx[signal].append(hashes[colhash])
                             else:
                                 # if we're not combining or we haven't seen it already
                                 # save the hash and make a note it's new
 
-                                hashlist.append(colhash)
+                                hashes.setdefault(colhash, cc)
                                 idx[signal].append(cc)
                                 cc += 1
                     elif signal.basis_params:
-- 
2.43.0


From b3a99e4b574aeb01d07cb24a383a387791cecc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 08/24] fix: get_coefficients skipped common GPs when no
 cross-pulsar signal is present

---
 enterprise/signals/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index e4fbabd..2f59090 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -207,7 +207,7 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
 
                 pardict, ntot = {}, 0
                 for sig in model._signals:
-                    if sig.signal_type == "basis":
+                    if sig.signal_type in ["basis", "common basis"]:
                         nb = sig.get_basis(params=params).shape[1]
 
                         if nb + ntot > len(b):
-- 
2.43.0


From e6c512df0fced82184e3762d6dafb9b613e705e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 09/24] fix: sample every hyperparameter once, and use that
 draw throughout

---
 enterprise/signals/parameter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/parameter.py b/enterprise/signals/parameter.py
index 065f7f2..a846061 100644
--- a/enterprise/signals/parameter.py
+++ b/enterprise/signals/parameter.py
@@ -28,10 +28,9 @@ def _sample(parlist, parvalues):
     """Recursive function used by sample()."""
 
     for par in parlist:
-        if par not in parvalues:
-            # RvH: Hyper pars seem to be broken
+        if par.name not in parvalues:
             # sample hyperpars for this par, skip parameter itself
-            parvalues.update(sample(par.params[1:]))
+            _sample(par.params[1:], parvalues)
 
             parvalues[par.name] = par.sample(params=parvalues)
 
-- 
2.43.0


From c07581c75be497f53cd0e72ab016c72aa47a29d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 10/24] fix: keep nested Function parameters apart when they
 share a keyword

---
 enterprise/signals/parameter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/parameter.py b/enterprise/signals/parameter.py
index a846061..1bf9786 100644
--- a/enterprise/signals/parameter.py
+++ b/enterprise/signals/parameter.py
@@ -481,7 +481,8 @@ def Function(func, name="", **func_kwargs):
             #   to self._params
             # - if they are Function classes, then we will instantiate
             #   them, save them to self._funcs, and add all of their
-            #   parameters to self._params
+            #   parameters to self._params (with compound keys, since
+            #   different functions may use the same keywords)
             # - if they are something else, we will assume they are values,
             #   which we will save in self._defaults
 
@@ -501,10 +502,10 @@ def Function(func, name="", **func_kwargs):
                     parfunc = arg("_".join([n for n in pnames if n]), psr)
 
                     self._funcs[kw] = parfunc
-                    self._params.update(parfunc._params)
+                    self._params.update({"{}.{}".format(kw, k): par for k, par in parfunc._params.items()})
                 elif isinstance(arg, FunctionBase):
                     self._funcs[kw] = arg
-                    self._params.update(arg._params)
+                    self._params.update({"{}.{}".format(kw, k): par for k, par in arg._params.items()})
                 else:
                     self._defaults[kw] = arg
 
-- 
2.43.0


From bc2218d17ac7eee02e0eaca45ed50eef2cf1be86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 11/24] fix: do not convert units in place on the caller's
 arrays

---
 enterprise/signals/utils.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 2f59090..f1a4cb9 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -367,7 +367,7 @@ def get_edot(F, mc, e):
     """
 
     # chirp mass
-    mc *= const.Tsun
+    mc = mc * const.Tsun
 
     dedt = -304 / (15 * mc) * (2 * np.pi * mc * F) ** (8 / 3) * e * (1 + 121 / 304 * e**2) / ((1 - e**2) ** (5 / 2))
 
@@ -386,7 +386,7 @@ def get_Fdot(F, mc, e):
     """
 
     # chirp mass
-    mc *= const.Tsun
+    mc = mc * const.Tsun
 
     dFdt = (
         48
@@ -412,7 +412,7 @@ def get_gammadot(F, mc, q, e):
     """
 
     # chirp mass
-    mc *= const.Tsun
+    mc = mc * const.Tsun
 
     # total mass
     m = (((1 + q) ** 2) / q) ** (3 / 5) * mc
@@ -550,8 +550,8 @@ def get_an(n, mc, dl, h0, F, e):
     """
 
     # convert to seconds
-    mc *= const.Tsun
-    dl *= const.Mpc / const.c
+    mc = mc * const.Tsun
+    dl = dl * const.Mpc / const.c
 
     omega = 2 * np.pi * F
 
@@ -585,8 +585,8 @@ def get_bn(n, mc, dl, h0, F, e):
     """
 
     # convert to seconds
-    mc *= const.Tsun
-    dl *= const.Mpc / const.c
+    mc = mc * const.Tsun
+    dl = dl * const.Mpc / const.c
 
     omega = 2 * np.pi * F
 
@@ -614,8 +614,8 @@ def get_cn(n, mc, dl, h0, F, e):
     """
 
     # convert to seconds
-    mc *= const.Tsun
-    dl *= const.Mpc / const.c
+    mc = mc * const.Tsun
+    dl = dl * const.Mpc / const.c
 
     omega = 2 * np.pi * F
 
@@ -738,7 +738,7 @@ def bwm_delay(toas, pos, log10_h=-14.0, cos_gwtheta=0.0, gwphi=0.0, gwpol=0.0, t
     # convert
     h = 10**log10_h
     gwtheta = np.arccos(cos_gwtheta)
-    t0 *= const.day
+    t0 = t0 * const.day
 
     # antenna patterns
     if antenna_pattern_fn is None:
-- 
2.43.0


From 8385c3d531dc61753b1b16e694fe00ab75424ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 12/24] fix: filter_data must cut every per-TOA array and
 accept one-sided ranges

---
 enterprise/pulsar.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index ffac41a..4cb2cf7 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -140,16 +140,21 @@ class BasePulsar(object):
         if start_time is None and end_time is None:
             mask = np.ones(self._toas.shape, dtype=bool)
         else:
-            mask = np.logical_and(self._toas >= start_time * 86400, self._toas <= end_time * 86400)
+            start = -np.inf if start_time is None else start_time * 86400
+            end = np.inf if end_time is None else end_time * 86400
+            mask = np.logical_and(self._toas >= start, self._toas <= end)
 
         self._toas = self._toas[mask]
+        self._stoas = self._stoas[mask]
         self._toaerrs = self._toaerrs[mask]
         self._residuals = self._residuals[mask]
         self._ssbfreqs = self._ssbfreqs[mask]
+        self._telescope = self._telescope[mask]
 
         self._designmatrix = self._designmatrix[mask, :]
         dmx_mask = np.sum(self._designmatrix, axis=0) != 0.0
         self._designmatrix = self._designmatrix[:, dmx_mask]
+        self.fitpars = [par for par, keep in zip(self.fitpars, dmx_mask) if keep]
 
         if isinstance(self._flags, np.ndarray):
             self._flags = self._flags[mask]
@@ -157,8 +162,13 @@ class BasePulsar(object):
             for key in self._flags:
                 self._flags[key] = self._flags[key][mask]
 
+        self._pos_t = self._pos_t[mask, :]
+
         if self._planetssb is not None:
-            self._planetssb = self.planetssb[mask, :, :]
+            self._planetssb = self._planetssb[mask, :, :]
+
+        if self._sunssb is not None:
+            self._sunssb = self._sunssb[mask, :]
 
         self.sort_data()
 
-- 
2.43.0


From 7856e27ccf9d1112b363456fc57f0a16045ccf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 13/24] fix: save_feather looked up its tables on the Pulsar
 factory function

---
 enterprise/pulsar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 4cb2cf7..83740ac 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -764,9 +764,9 @@ class FeatherPulsar:
         pydict.update({f"flags_{flag}": self.flags[flag] for flag in self.flags})
 
         meta = {}
-        for attr in Pulsar.metadata:
+        for attr in FeatherPulsar.metadata:
             if hasattr(self, attr):
-                meta[attr] = Pulsar.to_list(getattr(self, attr))
+                meta[attr] = FeatherPulsar.to_list(getattr(self, attr))
             else:
                 print(f"Pulsar.save_feather: cannot find {attr} in Pulsar {self.name}.")
 
-- 
2.43.0


From af071a88cdbe4e187959fa7b205ed410027a5dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:23 +0000
Subject: [PATCH 14/24] fix: BlockMatrix.solve dropped single-column dimensions
 (and failed on some)

---
 enterprise/signals/signal_base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index bb984ca..ec8a5fd 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -1170,6 +1170,8 @@ class BlockMatrix(object):
         """Solves :math:`Z^T N^{-1}X`, where :math:`X`
         and :math:`Z` are 1-d or 2-d arrays.
         """
+        shape = Z.shape[1:] + X.shape[1:]
+
         if X.ndim == 1:
             X = X.reshape(X.shape[0], 1)
         if Z.ndim == 1:
@@ -1192,12 +1194,14 @@ class BlockMatrix(object):
                 bx = Xblock / self._nvec[idx][:, None]
             ZNX += np.dot(Zblock.T, bx)
         ZNX += ZNXr
-        return ZNX.squeeze() if len(ZNX) > 1 else float(ZNX)
+        return ZNX.reshape(shape) if shape else float(ZNX[0, 0])
 
     def _solve_NX(self, X):
         """Solves :math:`N^{-1}X`, where :math:`X`
         is a 1-d or 2-d array.
         """
+        shape = X.shape
+
         if X.ndim == 1:
             X = X.reshape(X.shape[0], 1)
 
@@ -1207,7 +1211,7 @@ class BlockMatrix(object):
             if len(idx) > 1:
                 cf = sl.cho_factor(block + np.diag(self._nvec[idx]))
                 NX[idx] = sl.cho_solve(cf, Xblock)
-        return NX.squeeze()
+        return NX.reshape(shape)
 
     def _get_logdet(self):
         """Returns log determinant of :math:`N+UJU^{T}` where :math:`U`
-- 
2.43.0


From 340db103694578421ddc5dd30bbb9bf997edd0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:11 +0000
Subject: [PATCH 15/24] fix: bind pulsar attributes to user-function arguments
 by name, not position

---
 enterprise/signals/selections.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/enterprise/signals/selections.py b/enterprise/signals/selections.py
index 0b4f1e7..0c8ce18 100644
--- a/enterprise/signals/selections.py
+++ b/enterprise/signals/selections.py
@@ -25,28 +25,26 @@ def selection_func(func):
 
     @functools.wraps(func)
     def wrapper(*args, **kwargs):
-        targs = list(args)
-
         # check for mask
         mask = kwargs.get("mask", Ellipsis)
         if "mask" in kwargs:
             del kwargs["mask"]
 
-        if len(targs) < len(funcargs) and "psr" in kwargs:
+        if len(args) < len(funcargs) and "psr" in kwargs:
             psr = kwargs["psr"]
 
             for funcarg in funcargs[len(args) :]:
                 if funcarg not in kwargs and hasattr(psr, funcarg):
                     attr = call_me_maybe(getattr(psr, funcarg))
                     if isinstance(attr, np.ndarray) and getattr(mask, "shape", [0])[0] == len(attr):
-                        targs.append(attr[mask])
+                        kwargs[funcarg] = attr[mask]
                     else:
-                        targs.append(attr)
+                        kwargs[funcarg] = attr
 
         if "psr" in kwargs and "psr" not in funcargs:
             del kwargs["psr"]
 
-        return func(*targs, **kwargs)
+        return func(*args, **kwargs)
 
     return wrapper
 
-- 
2.43.0


From e69585a6d18b59c6aae6afc9f9c5e4afac66b292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:17 +0000
Subject: [PATCH 16/24] fix: skip pulsars without a basis in the correlated-PTA
 likelihood

---
 enterprise/signals/signal_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index ec8a5fd..4254299 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -223,8 +223,9 @@ class LogLikelihood(object):
         if self.pta._commonsignals:
             phiinv, logdet_phi = phiinvs
 
-            TNT = self._block_TNT(TNTs)
-            TNr = self._block_TNr(TNrs)
+            # pulsars without a basis are not part of phi
+            TNT = self._block_TNT([TNT for TNT in TNTs if TNT is not None])
+            TNr = self._block_TNr([TNr for TNr in TNrs if TNr is not None])
 
             if self.cholesky_sparse:
                 try:
-- 
2.43.0


From d23aed5bf90118728a55de104c02a2a4ff4b37cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:46 +0000
Subject: [PATCH 17/24] fix: accept the documented list of modes in
 createfourierdesignmatrix_red

---
 enterprise/signals/gp_bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/gp_bases.py b/enterprise/signals/gp_bases.py
index f924be1..bff45b1 100644
--- a/enterprise/signals/gp_bases.py
+++ b/enterprise/signals/gp_bases.py
@@ -49,7 +49,7 @@ def createfourierdesignmatrix_red(
     # define sampling frequencies
     if modes is not None:
         nmodes = len(modes)
-        f = modes
+        f = np.asarray(modes)
     elif fmin is None and fmax is None and not logf:
         # make sure partially overlapping sets of modes
         # have identical frequencies
-- 
2.43.0


From f3481c3c3bc2da01f66ff7566e8d780e5fd6d5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 18/24] fix: undo the fill-reducing permutation in
 get_coefficients(common_sparse=True) draws

---
 enterprise/signals/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index f1a4cb9..1cf5545 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -153,7 +153,8 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
 
             ch = cholesky(Sigma)
             mn = ch(TNr)
-            Li = sps.linalg.inv(ch.L()).toarray().T
+            # ch.L() factors the permuted matrix, so undo the permutation
+            Li = ch.apply_Pt(sps.linalg.inv(ch.L()).toarray().T)
         else:
             Sigma = sl.block_diag(*TNTs) + phiinvs
             TNr = np.concatenate(TNrs)
-- 
2.43.0


From d30c2a45b681223b9ec7fcff50084d77e584869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:23 +0000
Subject: [PATCH 19/24] fix: keep fe+be backend flags in full (no truncation to
 the widest flag)

---
 enterprise/pulsar.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 83740ac..5adff61 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -282,14 +282,21 @@ class BasePulsar(object):
         # collect flag names
         flagnames = self._flags.dtype.names if isinstance(self._flags, np.ndarray) else list(self._flags.keys())
 
-        # allocate array with widest dtype
-        ret = np.zeros(len(self._toas), dtype=max([self._flags[name].dtype for name in flagnames]))
+        dtypes = [self._flags[name].dtype for name in flagnames]
 
         # go through the flags in reverse order of preference
         # setting or replacing values for each TOA
 
+        febe = ""
         if "fe" in flagnames and "be" in flagnames:
-            ret[:] = [(a + "_" + b if (a and b) else "") for a, b in zip(self._flags["fe"], self._flags["be"])]
+            febe = np.array(
+                [(a + "_" + b if (a and b) else "") for a, b in zip(self._flags["fe"], self._flags["be"])], dtype="U"
+            )
+            dtypes.append(febe.dtype)
+
+        # allocate array with widest dtype
+        ret = np.zeros(len(self._toas), dtype=max(dtypes))
+        ret[:] = febe
 
         for flag in ["f", "i", "sys", "g", "group"]:
             if flag in flagnames:
-- 
2.43.0


From 99f0a48e5fbb532c79327cdf22e0302e2348afae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:45 +0000
Subject: [PATCH 20/24] fix: cache_call lists a key only once its value has
 been computed

---
 enterprise/signals/signal_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 4254299..c091744 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -1065,8 +1065,8 @@ def cache_call(attrs, limit=2):
                 msg = "Setting cache for {} in {}: {}".format(attrs, self.__class__, key)
                 logger.debug(msg)
 
-                cache_list.append(key)
                 cache[key] = func(self, params)
+                cache_list.append(key)
 
                 if len(cache_list) > limit:
                     _ = cache.pop(cache_list.pop(0), None)  # noqa: F841
-- 
2.43.0


From fe82280726e94048ef249b4741cfc947cd84984b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:10 +0000
Subject: [PATCH 21/24] fix: keep the basis labels consistent when a basis
 cannot be computed

---
 enterprise/signals/gp_signals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index dce6e61..d415152 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -95,9 +95,11 @@ def BasisGP(
         # than the last time
         @signal_base.cache_call("basis_params", limit=1)
         def _construct_basis(self, params={}):
-            basis, self._labels = {}, {}
+            basis, labels = {}, {}
             for key, mask in zip(self._keys, self._masks):
-                basis[key], self._labels[key] = self._bases[key](params=params, mask=mask)
+                basis[key], labels[key] = self._bases[key](params=params, mask=mask)
+
+            self._labels = labels
 
             nc = sum(F.shape[1] for F in basis.values())
             self._basis = np.zeros((len(self._masks[0]), nc))
-- 
2.43.0


From f10c63a5e22bbde2b7ad56747f59ddd2028e5aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:46 +0000
Subject: [PATCH 22/24] fix: key the pulsar-level delay cache on the basis of
 GPs with coefficients

---
 enterprise/signals/signal_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index c091744..ae9a3e9 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -813,7 +813,11 @@ def SignalCollection(metasignals):  # noqa: C901
                 elif signal.signal_type in ["basis", "common basis"]:
                     # to support GP coefficients, and yet do the right thing
                     # for common GPs, which do not have coefficients yet
-                    self.delay_params.extend(getattr(signal, "delay_params", []))
+                    delay_params = getattr(signal, "delay_params", [])
+                    if delay_params:
+                        # the delay of a GP with coefficients follows its basis
+                        self.delay_params.extend(delay_params)
+                        self.delay_params.extend(signal.basis_params)
                     self.basis_params.extend(signal.basis_params)
                 elif signal.signal_type in ["deterministic"]:
                     self.delay_params.extend(signal.delay_params)
-- 
2.43.0


From 717a515d29b38236a46799e6eed75225ac3c953a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:51 +0000
Subject: [PATCH 23/24] fix: get_phiinv(method='partition') without logdet,
 next to a dense prior

---
 enterprise/signals/signal_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index ae9a3e9..c65a0fa 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -458,8 +458,8 @@ class PTA(object):
             phis = [phivec for phivec in phivecs if phivec is not None]
             if np.any([phivec.ndim == 2 for phivec in phis]):
                 phiinvs = [phivec.inv(logdet) for phivec in phis]
-                phiinv_full = [np.diag(phi[0]) if phi[0].ndim == 1 else phi[0] for phi in phiinvs]
-                phiinv = sl.block_diag(*phiinv_full)
+                phiinv_full = [phi[0] for phi in phiinvs] if logdet else phiinvs
+                phiinv = sl.block_diag(*[np.diag(phi) if phi.ndim == 1 else phi for phi in phiinv_full])
                 if logdet:
                     ld = np.sum([pi[1] for pi in phiinvs])
                 phidiag = np.concatenate([np.diag(phi) if phi.ndim == 2 else phi for phi in phis])
-- 
2.43.0


From d3ecdc9047d2317f64615893c909671564beb8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:18 +0000
Subject: [PATCH 24/24] fix: draws of coefficients when the singular value
 decomposition of Sigma fails

Li was built from the singular values of the inverse of Sigma as if they were
those of Sigma, which gave the draws covariance Sigma.
---
 enterprise/signals/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 1cf5545..802e25e 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -201,7 +201,7 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
                 Sigi = sl.solve(R, Q.T)
                 mn = np.dot(Sigi, d)
                 u, s, _ = sl.svd(Sigi)
-                Li = u * np.sqrt(1 / s)
+                Li = u * np.sqrt(s)
 
             for j in range(n):
                 b = mn + (np.dot(Li, np.random.randn(Li.shape[0])) if variance else 0)
-- 
2.43.0

