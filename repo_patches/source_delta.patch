From 9c41caf469b612bbe6eb684e7305c91c679871dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 01/32] fix: resolve the default logarithm base at call time

The default base was Config.get("base") evaluated as a default argument when
the module was imported, so Config.set_logarithmic_unit() had no effect on any
estimator.
---
 infomeasure/estimators/base.py                | 24 ++++++++-----------
 infomeasure/estimators/entropy/ansb.py        |  3 +--
 infomeasure/estimators/entropy/bayes.py       |  3 +--
 infomeasure/estimators/entropy/kernel.py      |  3 +--
 .../estimators/entropy/kozachenko_leonenko.py |  3 +--
 infomeasure/estimators/entropy/nsb.py         |  3 +--
 infomeasure/estimators/entropy/ordinal.py     |  3 +--
 infomeasure/estimators/entropy/renyi.py       |  3 +--
 infomeasure/estimators/entropy/tsallis.py     |  3 +--
 .../estimators/mutual_information/ansb.py     |  3 +--
 .../estimators/mutual_information/bayes.py    |  3 +--
 .../mutual_information/bonachela.py           |  3 +--
 .../mutual_information/chao_shen.py           |  3 +--
 .../mutual_information/chao_wang_jost.py      |  3 +--
 .../estimators/mutual_information/discrete.py |  3 +--
 .../mutual_information/grassberger.py         |  3 +--
 .../estimators/mutual_information/kernel.py   |  3 +--
 .../kraskov_stoegbauer_grassberger.py         |  3 +--
 .../mutual_information/miller_madow.py        |  3 +--
 .../estimators/mutual_information/nsb.py      |  3 +--
 .../estimators/mutual_information/ordinal.py  |  3 +--
 .../estimators/mutual_information/renyi.py    |  3 +--
 .../estimators/mutual_information/shrink.py   |  3 +--
 .../estimators/mutual_information/tsallis.py  |  3 +--
 .../estimators/mutual_information/zhang.py    |  3 +--
 .../estimators/transfer_entropy/ansb.py       |  3 +--
 .../estimators/transfer_entropy/bayes.py      |  3 +--
 .../estimators/transfer_entropy/bonachela.py  |  3 +--
 .../estimators/transfer_entropy/chao_shen.py  |  3 +--
 .../transfer_entropy/chao_wang_jost.py        |  3 +--
 .../estimators/transfer_entropy/discrete.py   |  3 +--
 .../transfer_entropy/grassberger.py           |  3 +--
 .../estimators/transfer_entropy/kernel.py     |  3 +--
 .../kraskov_stoegbauer_grassberger.py         |  3 +--
 .../transfer_entropy/miller_madow.py          |  3 +--
 .../estimators/transfer_entropy/nsb.py        |  3 +--
 .../estimators/transfer_entropy/ordinal.py    |  3 +--
 .../estimators/transfer_entropy/renyi.py      |  3 +--
 .../estimators/transfer_entropy/shrink.py     |  3 +--
 .../estimators/transfer_entropy/tsallis.py    |  3 +--
 .../estimators/transfer_entropy/zhang.py      |  3 +--
 41 files changed, 50 insertions(+), 94 deletions(-)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 15b14a3..f6f7256 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -64,11 +64,11 @@ class Estimator(Generic[EstimatorType], ABC):
     (use :class:`StatisticalTestingMixin` for standard implementations).
     """
 
-    def __init__(self, base: LogBaseType = Config.get("base")):
+    def __init__(self, base: LogBaseType = None):
         """Initialize the estimator."""
         self.res_global = None
         self.res_local = None
-        self.base = base
+        self.base = Config.get("base") if base is None else base
 
     @final
     def calculate(self) -> None:
@@ -279,7 +279,7 @@ class EntropyEstimator(Estimator["EntropyEstimator"], ABC):
       :math:`-\sum_{i=1}^{n} p_i \log_b q_i`
     """
 
-    def __init__(self, *data, base: LogBaseType = Config.get("base")):
+    def __init__(self, *data, base: LogBaseType = None):
         """Initialize the estimator with the data."""
         # Check valid input data
         if len(data) == 0:
@@ -481,7 +481,7 @@ class MutualInformationEstimator(
         *data,
         offset: int = 0,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with the data."""
@@ -640,7 +640,7 @@ class ConditionalMutualInformationEstimator(
         cond=None,
         normalize: bool = False,
         offset=None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with the data."""
@@ -801,7 +801,7 @@ class TransferEntropyEstimator(
         dest_hist_len: int = 1,
         step_size: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with the data."""
@@ -988,7 +988,7 @@ class ConditionalTransferEntropyEstimator(
         step_size: int = 1,
         prop_time=None,
         offset=None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with the data."""
@@ -1145,9 +1145,7 @@ class DiscreteHEstimator(EntropyEstimator, ABC):
         """
         if isinstance(args[0], DiscreteData):
             self.data = (args[0],)
-            self.base = kwargs.get("base", Config.get("base"))
-            self.res_global = None
-            self.res_local = None
+            Estimator.__init__(self, base=kwargs.get("base"))
             return
 
         super().__init__(*args, **kwargs)
@@ -1159,9 +1157,7 @@ class DiscreteHEstimator(EntropyEstimator, ABC):
         self.data = tuple(DiscreteData.from_data(var) for var in self.data)
 
     @classmethod
-    def from_counts(
-        cls, uniq, counts, base: LogBaseType = Config.get("base"), **kwargs
-    ):
+    def from_counts(cls, uniq, counts, base: LogBaseType = None, **kwargs):
         """Construct a DiscreteHEstimator from the provided counts.
 
         DiscreteData validates the data integrity, other validations are skipped.
@@ -1176,7 +1172,7 @@ class DiscreteHEstimator(EntropyEstimator, ABC):
         cls,
         uniq,
         probabilities,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Construct a DiscreteHEstimator from the provided probabilities.
diff --git a/infomeasure/estimators/entropy/ansb.py b/infomeasure/estimators/entropy/ansb.py
index 88e9fb6..d98aa0c 100644
--- a/infomeasure/estimators/entropy/ansb.py
+++ b/infomeasure/estimators/entropy/ansb.py
@@ -6,7 +6,6 @@ from scipy.special import digamma
 from infomeasure.estimators.base import DiscreteHEstimator
 from ...utils.config import logger
 from ...utils.exceptions import TheoreticalInconsistencyError
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -69,7 +68,7 @@ class AnsbEntropyEstimator(DiscreteHEstimator):
         *data,
         K: int = None,
         undersampled: float = 0.1,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         """Initialize the ANSB entropy estimator."""
         super().__init__(*data, base=base)
diff --git a/infomeasure/estimators/entropy/bayes.py b/infomeasure/estimators/entropy/bayes.py
index e204e65..fc9d3c0 100644
--- a/infomeasure/estimators/entropy/bayes.py
+++ b/infomeasure/estimators/entropy/bayes.py
@@ -3,7 +3,6 @@
 from numpy import sum as np_sum
 
 from infomeasure.estimators.base import DiscreteHEstimator
-from ... import Config
 from ...utils.config import logger
 from ...utils.types import LogBaseType
 
@@ -68,7 +67,7 @@ class BayesEntropyEstimator(DiscreteHEstimator):
         *data,
         alpha: float | str,
         K: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         """Initialize the BayesEntropyEstimator.
 
diff --git a/infomeasure/estimators/entropy/kernel.py b/infomeasure/estimators/entropy/kernel.py
index cacf0d3..aa3d361 100644
--- a/infomeasure/estimators/entropy/kernel.py
+++ b/infomeasure/estimators/entropy/kernel.py
@@ -2,7 +2,6 @@
 
 from numpy import column_stack, sum as np_sum, isnan, nan
 
-from ... import Config
 from ...utils.types import LogBaseType
 from ..base import EntropyEstimator
 from ..mixins import WorkersMixin
@@ -129,7 +128,7 @@ class KernelEntropyEstimator(WorkersMixin, EntropyEstimator):
         bandwidth: float | int,
         kernel: str,
         workers: int = 1,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         """Initialize the KernelEntropyEstimator.
 
diff --git a/infomeasure/estimators/entropy/kozachenko_leonenko.py b/infomeasure/estimators/entropy/kozachenko_leonenko.py
index ae3ca0b..f29090b 100644
--- a/infomeasure/estimators/entropy/kozachenko_leonenko.py
+++ b/infomeasure/estimators/entropy/kozachenko_leonenko.py
@@ -9,7 +9,6 @@ from ..base import EntropyEstimator
 from ..mixins import RandomGeneratorMixin
 from ..utils.array import assure_2d_data
 from ..utils.unit_ball_volume import unit_ball_volume
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -131,7 +130,7 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
         ksg_id: int = 1,
         noise_level=1e-10,
         minkowski_p=inf,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         r"""Initialize the Kozachenko-Leonenko estimator.
 
diff --git a/infomeasure/estimators/entropy/nsb.py b/infomeasure/estimators/entropy/nsb.py
index 8b59c65..daa8236 100644
--- a/infomeasure/estimators/entropy/nsb.py
+++ b/infomeasure/estimators/entropy/nsb.py
@@ -10,7 +10,6 @@ from scipy.special import loggamma, digamma, polygamma
 from infomeasure.estimators.base import DiscreteHEstimator
 from ...utils.config import logger
 from ...utils.exceptions import TheoreticalInconsistencyError
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -80,7 +79,7 @@ class NsbEntropyEstimator(DiscreteHEstimator):
     np.float64(1.4526460202102247)
     """
 
-    def __init__(self, *data, K: int = None, base: LogBaseType = Config.get("base")):
+    def __init__(self, *data, K: int = None, base: LogBaseType = None):
         """Initialize the NSB entropy estimator."""
         super().__init__(*data, base=base)
         self.k_given = K
diff --git a/infomeasure/estimators/entropy/ordinal.py b/infomeasure/estimators/entropy/ordinal.py
index b936cfc..e8edff6 100644
--- a/infomeasure/estimators/entropy/ordinal.py
+++ b/infomeasure/estimators/entropy/ordinal.py
@@ -15,7 +15,6 @@ from numpy import (
 
 from ..base import EntropyEstimator
 from ..utils.ordinal import reduce_joint_space, symbolize_series
-from ... import Config
 from ...utils.config import logger
 from ...utils.data import DiscreteData
 from ...utils.types import LogBaseType
@@ -67,7 +66,7 @@ class OrdinalEntropyEstimator(EntropyEstimator):
         embedding_dim: int,
         step_size: int = 1,
         stable: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         """Initialize the OrdinalEntropyEstimator.
 
diff --git a/infomeasure/estimators/entropy/renyi.py b/infomeasure/estimators/entropy/renyi.py
index 3888921..3e6fbec 100644
--- a/infomeasure/estimators/entropy/renyi.py
+++ b/infomeasure/estimators/entropy/renyi.py
@@ -9,7 +9,6 @@ from ..utils.exponential_family import (
     exponential_family_iq,
     exponential_family_i1,
 )
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -49,7 +48,7 @@ class RenyiEntropyEstimator(EntropyEstimator):
         *data,
         k: int = 4,
         alpha: float | int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         r"""Initialize the RenyiEntropyEstimator.
 
diff --git a/infomeasure/estimators/entropy/tsallis.py b/infomeasure/estimators/entropy/tsallis.py
index 568ed8e..c0a27fb 100644
--- a/infomeasure/estimators/entropy/tsallis.py
+++ b/infomeasure/estimators/entropy/tsallis.py
@@ -9,7 +9,6 @@ from ..utils.exponential_family import (
     exponential_family_iq,
     exponential_family_i1,
 )
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -47,7 +46,7 @@ class TsallisEntropyEstimator(EntropyEstimator):
         *data,
         k: int = 4,
         q: float | int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         r"""Initialize the TsallisMIEstimator.
 
diff --git a/infomeasure/estimators/mutual_information/ansb.py b/infomeasure/estimators/mutual_information/ansb.py
index b080d05..5991b42 100644
--- a/infomeasure/estimators/mutual_information/ansb.py
+++ b/infomeasure/estimators/mutual_information/ansb.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.ansb import AnsbEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -40,7 +39,7 @@ class BaseAnsbMIEstimator(ABC):
         cond=None,
         undersampled: float = 0.1,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Ansb estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/bayes.py b/infomeasure/estimators/mutual_information/bayes.py
index 68cb40e..b81c44f 100644
--- a/infomeasure/estimators/mutual_information/bayes.py
+++ b/infomeasure/estimators/mutual_information/bayes.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.bayes import BayesEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -43,7 +42,7 @@ class BaseBayesMIEstimator(ABC):
         alpha: float | str,
         K: int = None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Bayes estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/bonachela.py b/infomeasure/estimators/mutual_information/bonachela.py
index 6ba53fb..ab57fb0 100644
--- a/infomeasure/estimators/mutual_information/bonachela.py
+++ b/infomeasure/estimators/mutual_information/bonachela.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.bonachela import BonachelaEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseBonachelaMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Bonachela estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/chao_shen.py b/infomeasure/estimators/mutual_information/chao_shen.py
index 1ec5f35..629b403 100644
--- a/infomeasure/estimators/mutual_information/chao_shen.py
+++ b/infomeasure/estimators/mutual_information/chao_shen.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.chao_shen import ChaoShenEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseChaoShenMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the ChaoShen estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/chao_wang_jost.py b/infomeasure/estimators/mutual_information/chao_wang_jost.py
index eab3efa..26a1030 100644
--- a/infomeasure/estimators/mutual_information/chao_wang_jost.py
+++ b/infomeasure/estimators/mutual_information/chao_wang_jost.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.chao_wang_jost import ChaoWangJostEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseChaoWangJostMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the ChaoWangJost estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/discrete.py b/infomeasure/estimators/mutual_information/discrete.py
index a12aa98..fe405d8 100644
--- a/infomeasure/estimators/mutual_information/discrete.py
+++ b/infomeasure/estimators/mutual_information/discrete.py
@@ -16,7 +16,6 @@ from ..utils.discrete_interaction_information import (
     conditional_mutual_information_local,
 )
 from ..utils.ordinal import reduce_joint_space
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -43,7 +42,7 @@ class BaseDiscreteMIEstimator(DiscreteMIMixin, ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseDiscreteMIEstimator.
diff --git a/infomeasure/estimators/mutual_information/grassberger.py b/infomeasure/estimators/mutual_information/grassberger.py
index 6208a27..865d333 100644
--- a/infomeasure/estimators/mutual_information/grassberger.py
+++ b/infomeasure/estimators/mutual_information/grassberger.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.grassberger import GrassbergerEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseGrassbergerMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Grassberger estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/kernel.py b/infomeasure/estimators/mutual_information/kernel.py
index f7dea33..4afa6c1 100644
--- a/infomeasure/estimators/mutual_information/kernel.py
+++ b/infomeasure/estimators/mutual_information/kernel.py
@@ -12,7 +12,6 @@ from ..base import (
 from ..mixins import WorkersMixin
 from ..utils.array import assure_2d_data
 from ..utils.kde import kde_probability_density_function
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -53,7 +52,7 @@ class BaseKernelMIEstimator(WorkersMixin, ABC):
         offset: int = 0,
         workers: int = 1,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with specific bandwidth and kernel.
diff --git a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
index f3b9720..5963ed8 100644
--- a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
@@ -11,7 +11,6 @@ from ..base import (
     ConditionalMutualInformationEstimator,
 )
 from ..utils.array import assure_2d_data
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -57,7 +56,7 @@ class BaseKSGMIEstimator(ABC):
         minkowski_p=inf,
         offset: int = 0,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/miller_madow.py b/infomeasure/estimators/mutual_information/miller_madow.py
index 920354a..c34df35 100644
--- a/infomeasure/estimators/mutual_information/miller_madow.py
+++ b/infomeasure/estimators/mutual_information/miller_madow.py
@@ -15,7 +15,6 @@ from ..utils.discrete_interaction_information import (
     conditional_mutual_information_global,
     conditional_mutual_information_local,
 )
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -41,7 +40,7 @@ class BaseMillerMadowMIEstimator(DiscreteMIMixin, ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseMillerMadowMIEstimator.
diff --git a/infomeasure/estimators/mutual_information/nsb.py b/infomeasure/estimators/mutual_information/nsb.py
index 0d3a397..cf22e7b 100644
--- a/infomeasure/estimators/mutual_information/nsb.py
+++ b/infomeasure/estimators/mutual_information/nsb.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.nsb import NsbEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -39,7 +38,7 @@ class BaseNsbMIEstimator(ABC):
         cond=None,
         K: int = None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Nsb estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/ordinal.py b/infomeasure/estimators/mutual_information/ordinal.py
index 0072c05..426ee8b 100644
--- a/infomeasure/estimators/mutual_information/ordinal.py
+++ b/infomeasure/estimators/mutual_information/ordinal.py
@@ -15,7 +15,6 @@ from ..utils.discrete_interaction_information import (
     conditional_mutual_information_local,
 )
 from ..utils.ordinal import symbolize_series, reduce_joint_space
-from ... import Config
 from ...utils.config import logger
 from ...utils.types import LogBaseType
 
@@ -69,7 +68,7 @@ class BaseOrdinalMIEstimator(ABC):
         step_size: int = 1,
         stable: bool = False,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the OrdinalMIEstimator."""
diff --git a/infomeasure/estimators/mutual_information/renyi.py b/infomeasure/estimators/mutual_information/renyi.py
index 734343d..0d07617 100644
--- a/infomeasure/estimators/mutual_information/renyi.py
+++ b/infomeasure/estimators/mutual_information/renyi.py
@@ -10,7 +10,6 @@ from ..base import (
 )
 
 from ..entropy.renyi import RenyiEntropyEstimator
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -50,7 +49,7 @@ class BaseRenyiMIEstimator(ABC):
         noise_level=1e-8,
         offset: int = 0,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/shrink.py b/infomeasure/estimators/mutual_information/shrink.py
index f1a22cc..8226eea 100644
--- a/infomeasure/estimators/mutual_information/shrink.py
+++ b/infomeasure/estimators/mutual_information/shrink.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.shrink import ShrinkEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseShrinkMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Shrink estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/tsallis.py b/infomeasure/estimators/mutual_information/tsallis.py
index faffd02..380d86a 100644
--- a/infomeasure/estimators/mutual_information/tsallis.py
+++ b/infomeasure/estimators/mutual_information/tsallis.py
@@ -10,7 +10,6 @@ from ..base import (
 )
 
 from ..entropy.tsallis import TsallisEntropyEstimator
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -50,7 +49,7 @@ class BaseTsallisMIEstimator(ABC):
         noise_level: float = 1e-8,
         offset: int = 0,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the BaseTsallisMIEstimator.
diff --git a/infomeasure/estimators/mutual_information/zhang.py b/infomeasure/estimators/mutual_information/zhang.py
index 1d8375f..78d123b 100644
--- a/infomeasure/estimators/mutual_information/zhang.py
+++ b/infomeasure/estimators/mutual_information/zhang.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.zhang import ZhangEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -37,7 +36,7 @@ class BaseZhangMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Zhang estimator with specific parameters.
diff --git a/infomeasure/estimators/transfer_entropy/ansb.py b/infomeasure/estimators/transfer_entropy/ansb.py
index f4a5a0c..e086624 100644
--- a/infomeasure/estimators/transfer_entropy/ansb.py
+++ b/infomeasure/estimators/transfer_entropy/ansb.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.ansb import AnsbEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -55,7 +54,7 @@ class BaseAnsbTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseAnsbTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/bayes.py b/infomeasure/estimators/transfer_entropy/bayes.py
index 549c32e..1ef7285 100644
--- a/infomeasure/estimators/transfer_entropy/bayes.py
+++ b/infomeasure/estimators/transfer_entropy/bayes.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.bayes import BayesEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -63,7 +62,7 @@ class BaseBayesTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseBayesTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/bonachela.py b/infomeasure/estimators/transfer_entropy/bonachela.py
index 54dc871..7df0ec1 100644
--- a/infomeasure/estimators/transfer_entropy/bonachela.py
+++ b/infomeasure/estimators/transfer_entropy/bonachela.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.bonachela import BonachelaEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseBonachelaTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseBonachelaTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/chao_shen.py b/infomeasure/estimators/transfer_entropy/chao_shen.py
index eef5b3c..7313f36 100644
--- a/infomeasure/estimators/transfer_entropy/chao_shen.py
+++ b/infomeasure/estimators/transfer_entropy/chao_shen.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.chao_shen import ChaoShenEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseChaoShenTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseChaoShenTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/chao_wang_jost.py b/infomeasure/estimators/transfer_entropy/chao_wang_jost.py
index 141cd90..d5918b3 100644
--- a/infomeasure/estimators/transfer_entropy/chao_wang_jost.py
+++ b/infomeasure/estimators/transfer_entropy/chao_wang_jost.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.chao_wang_jost import ChaoWangJostEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseChaoWangJostTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseChaoWangJostTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/discrete.py b/infomeasure/estimators/transfer_entropy/discrete.py
index aa06de1..05e7b16 100644
--- a/infomeasure/estimators/transfer_entropy/discrete.py
+++ b/infomeasure/estimators/transfer_entropy/discrete.py
@@ -12,7 +12,6 @@ from ..mixins import DiscreteTEMixin
 from ..utils.discrete_transfer_entropy import combined_te_form
 from ..utils.ordinal import reduce_joint_space
 from ..utils.te_slicing import cte_observations, te_observations
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -54,7 +53,7 @@ class BaseDiscreteTEEstimator(DiscreteTEMixin, ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseDiscreteTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/grassberger.py b/infomeasure/estimators/transfer_entropy/grassberger.py
index 07a63fb..450ada6 100644
--- a/infomeasure/estimators/transfer_entropy/grassberger.py
+++ b/infomeasure/estimators/transfer_entropy/grassberger.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.grassberger import GrassbergerEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseGrassbergerTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseGrassbergerTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/kernel.py b/infomeasure/estimators/transfer_entropy/kernel.py
index b7462db..190bea7 100644
--- a/infomeasure/estimators/transfer_entropy/kernel.py
+++ b/infomeasure/estimators/transfer_entropy/kernel.py
@@ -4,7 +4,6 @@ from abc import ABC
 
 from numpy import isinf, isnan
 
-from ... import Config
 from ...utils.config import logger
 from ...utils.types import LogBaseType
 from ..base import (
@@ -65,7 +64,7 @@ class BaseKernelTEEstimator(WorkersMixin, ABC):
         cond_hist_len: int = 1,
         workers: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseKernelTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
index 65911e6..da9a9f2 100644
--- a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
@@ -11,7 +11,6 @@ from ..base import (
     ConditionalTransferEntropyEstimator,
 )
 from ..utils.te_slicing import te_observations, cte_observations
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -69,7 +68,7 @@ class BaseKSGTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the BaseKSGTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/miller_madow.py b/infomeasure/estimators/transfer_entropy/miller_madow.py
index 3c10abf..099433e 100644
--- a/infomeasure/estimators/transfer_entropy/miller_madow.py
+++ b/infomeasure/estimators/transfer_entropy/miller_madow.py
@@ -4,7 +4,6 @@ from abc import ABC
 
 from numpy import ndarray
 
-from ... import Config
 from ...utils.types import LogBaseType
 from ..base import (
     ConditionalTransferEntropyEstimator,
@@ -52,7 +51,7 @@ class BaseMillerMadowTEEstimator(DiscreteTEMixin, ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseMillerMadowTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/nsb.py b/infomeasure/estimators/transfer_entropy/nsb.py
index 199a781..0d7f563 100644
--- a/infomeasure/estimators/transfer_entropy/nsb.py
+++ b/infomeasure/estimators/transfer_entropy/nsb.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.nsb import NsbEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -54,7 +53,7 @@ class BaseNsbTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseNsbTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/ordinal.py b/infomeasure/estimators/transfer_entropy/ordinal.py
index 16597ee..e6f1a83 100644
--- a/infomeasure/estimators/transfer_entropy/ordinal.py
+++ b/infomeasure/estimators/transfer_entropy/ordinal.py
@@ -4,7 +4,6 @@ from abc import ABC
 
 from numpy import integer, issubdtype, ndarray
 
-from ... import Config
 from ...utils.config import logger
 from ...utils.types import LogBaseType
 from ..base import (
@@ -76,7 +75,7 @@ class BaseOrdinalTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseOrdinalTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/renyi.py b/infomeasure/estimators/transfer_entropy/renyi.py
index 6bafdb1..65413c9 100644
--- a/infomeasure/estimators/transfer_entropy/renyi.py
+++ b/infomeasure/estimators/transfer_entropy/renyi.py
@@ -10,7 +10,6 @@ from ..base import (
 )
 
 from ..entropy.renyi import RenyiEntropyEstimator
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -71,7 +70,7 @@ class BaseRenyiTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseRenyiTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/shrink.py b/infomeasure/estimators/transfer_entropy/shrink.py
index 760dc45..5637bd5 100644
--- a/infomeasure/estimators/transfer_entropy/shrink.py
+++ b/infomeasure/estimators/transfer_entropy/shrink.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.shrink import ShrinkEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseShrinkTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseShrinkTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/tsallis.py b/infomeasure/estimators/transfer_entropy/tsallis.py
index 14149ca..1c5c1eb 100644
--- a/infomeasure/estimators/transfer_entropy/tsallis.py
+++ b/infomeasure/estimators/transfer_entropy/tsallis.py
@@ -10,7 +10,6 @@ from ..base import (
 )
 
 from ..entropy.tsallis import TsallisEntropyEstimator
-from ... import Config
 from ...utils.types import LogBaseType
 
 
@@ -72,7 +71,7 @@ class BaseTsallisTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseTsallisTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/zhang.py b/infomeasure/estimators/transfer_entropy/zhang.py
index a9bcf46..1549e30 100644
--- a/infomeasure/estimators/transfer_entropy/zhang.py
+++ b/infomeasure/estimators/transfer_entropy/zhang.py
@@ -10,7 +10,6 @@ from infomeasure.estimators.base import (
 )
 
 from ..entropy.zhang import ZhangEntropyEstimator
-from infomeasure import Config
 from infomeasure.utils.types import LogBaseType
 
 
@@ -52,7 +51,7 @@ class BaseZhangTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseZhangTEEstimator.
-- 
2.43.0


From 05af283379c2a4325890ae9c4ae213ae88230a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 02/32] fix: prevent integer overflow in multivariate discrete
 (C)MI

The product of the marginal counts was taken in uint64 and wrapped around for
many variables and samples; sum the logarithms instead.
---
 .../utils/discrete_interaction_information.py | 23 ++++++++-----------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/infomeasure/estimators/utils/discrete_interaction_information.py b/infomeasure/estimators/utils/discrete_interaction_information.py
index e3c1cc8..b684d05 100644
--- a/infomeasure/estimators/utils/discrete_interaction_information.py
+++ b/infomeasure/estimators/utils/discrete_interaction_information.py
@@ -114,12 +114,9 @@ def _mutual_information_global_nd_int(
 
     # Calculate the expected logarithm values for the outer product of marginal
     # probabilities, only for non-zero entries.
-    outer = prod(
-        [
-            count.take(idx).astype(uint64, copy=False)
-            for count, idx in zip(count_marginals, idxs)
-        ],
-        axis=0,
+    # Sum of logarithms, as the product of many counts can overflow the integer range.
+    log_outer_counts = sum(
+        log_func(count.take(idx)) for count, idx in zip(count_marginals, idxs)
     )
 
     # Normalized contingency table (joint probability)
@@ -129,7 +126,7 @@ def _mutual_information_global_nd_int(
     # Logarithm of the non-zero elements
     log_p_joint = log_func(vals)
 
-    log_outer = -log_func(outer) + len(count_marginals) * log_func(contingency_sum)
+    log_outer = -log_outer_counts + len(count_marginals) * log_func(contingency_sum)
     # Combine the terms to calculate the mutual information
     mi = p_joint * (log_p_joint - log_func(contingency_sum)) + p_joint * log_outer
 
@@ -436,12 +433,10 @@ def _conditional_mutual_information_global_nd_int(
 
     # Calculate the expected logarithm values for the outer product of marginal
     # probabilities, only for non-zero entries.
-    outer = prod(
-        [
-            count[idx, idxs[-1]].astype(uint64, copy=False)
-            for count, idx in zip(count_marginals_cond, idxs[:-1])
-        ],
-        axis=0,
+    # Sum of logarithms, as the product of many counts can overflow the integer range.
+    log_outer_counts = sum(
+        log_func(count[idx, idxs[-1]])
+        for count, idx in zip(count_marginals_cond, idxs[:-1])
     )
 
     # Normalized contingency table (joint probability)
@@ -452,7 +447,7 @@ def _conditional_mutual_information_global_nd_int(
     p_cond = count_cond.take(idxs[-1]).astype(uint64, copy=False)
     log_p_joint = log_func(vals * p_cond) - log_func(contingency_sum)
 
-    log_outer = -log_func(outer) + sum(
+    log_outer = -log_outer_counts + sum(
         log_func(count_m.sum()) for count_m in count_marginals_cond[:-1]
     )
     # Combine the terms to calculate the mutual information
-- 
2.43.0


From 21a7743806ff8dd1ef5b6e76d5e6fe4f6d191b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 03/32] fix: multivariate (C)MI with a constant variable is not
 always zero

With three or more variables, a constant one contributes nothing, but the
others can still share information.
---
 .../utils/discrete_interaction_information.py    | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/infomeasure/estimators/utils/discrete_interaction_information.py b/infomeasure/estimators/utils/discrete_interaction_information.py
index b684d05..86e25ea 100644
--- a/infomeasure/estimators/utils/discrete_interaction_information.py
+++ b/infomeasure/estimators/utils/discrete_interaction_information.py
@@ -108,8 +108,8 @@ def _mutual_information_global_nd_int(
         for i in range(contingency_coo.ndim)
     ]
 
-    # Early return if any of the marginal entropies is zero
-    if any(count_m.size == 1 for count_m in count_marginals):
+    # Early return if less than two of the marginal entropies are non-zero
+    if sum(count_m.size > 1 for count_m in count_marginals) < 2:
         return 0.0
 
     # Calculate the expected logarithm values for the outer product of marginal
@@ -303,8 +303,8 @@ def mutual_information_local(
         for i in range(contingency_coo.ndim)
     ]
 
-    # Early return if any of the marginal entropies is zero
-    if any(count_m.size == 1 for count_m in count_marginals):
+    # Early return if less than two of the marginal entropies are non-zero
+    if sum(count_m.size > 1 for count_m in count_marginals) < 2:
         return zeros(len(data[0]))
 
     # To get local values we iterate over *data
@@ -427,8 +427,8 @@ def _conditional_mutual_information_global_nd_int(
     )
     # all axes, except cond
 
-    # Early return if any of the marginal entropies is zero
-    if any(count_m.size == 1 for count_m in count_marginals_cond):
+    # Early return if less than two of the marginal entropies are non-zero
+    if sum(count_m.size > 1 for count_m in count_marginals_cond) < 2:
         return 0.0
 
     # Calculate the expected logarithm values for the outer product of marginal
@@ -536,8 +536,8 @@ def conditional_mutual_information_local(
         contingency_coo.sum(axis=tuple(range(contingency_coo.ndim - 1)))
     )
 
-    # Early return if any of the marginal entropies is zero
-    if any(count_m.size == 1 for count_m in count_marginals_cond):
+    # Early return if less than two of the marginal entropies are non-zero
+    if sum(count_m.size > 1 for count_m in count_marginals_cond) < 2:
         return zeros(len(data[0])).astype(float)
 
     # To get local values we iterate over *data
-- 
2.43.0


From 202da51207bfce6a9f42fa072ead51d351239c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 04/32] fix: recompute ordinal symbols of shuffled data in
 (C)MI statistical tests

The symbols were calculated once in the constructor, so all permuted and
bootstrapped test values were equal to the observed value.
---
 .../estimators/mutual_information/ordinal.py  | 53 +++++++++++--------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/infomeasure/estimators/mutual_information/ordinal.py b/infomeasure/estimators/mutual_information/ordinal.py
index 426ee8b..b56bab0 100644
--- a/infomeasure/estimators/mutual_information/ordinal.py
+++ b/infomeasure/estimators/mutual_information/ordinal.py
@@ -115,30 +115,35 @@ class BaseOrdinalMIEstimator(ABC):
         self.step_size = step_size
         self.stable = stable
 
-        self.symbols = [
-            reduce_joint_space(
-                symbolize_series(
-                    var,
-                    self.embedding_dim,
-                    self.step_size,
-                    stable=self.stable,
-                    to_int=False,
-                )
-            )
-            for var in self.data
-        ]  # Convert permutation tuples to integers for efficiency (reduce_joint_space),
-        # so mutual_information_global can use crosstab method internally
-
+        self._symbolized_data = None
+        self._symbolize()
         if cond is not None:
-            self.symbols_cond = reduce_joint_space(
-                symbolize_series(
-                    self.cond,
-                    self.embedding_dim,
-                    self.step_size,
-                    stable=self.stable,
-                    to_int=False,
-                )
+            self.symbols_cond = self._symbolize_variable(self.cond)
+
+    def _symbolize_variable(self, var) -> ndarray:
+        """Symbolize one variable.
+
+        Convert permutation tuples to integers for efficiency (reduce_joint_space),
+        so mutual_information_global can use crosstab method internally
+        """
+        return reduce_joint_space(
+            symbolize_series(
+                var,
+                self.embedding_dim,
+                self.step_size,
+                stable=self.stable,
+                to_int=False,
             )
+        )
+
+    def _symbolize(self) -> None:
+        """Set the symbols of the current data, if they are not set already.
+
+        Statistical tests exchange the data after the initialization.
+        """
+        if self._symbolized_data is not self.data:
+            self.symbols = [self._symbolize_variable(var) for var in self.data]
+            self._symbolized_data = self.data
 
 
 class OrdinalMIEstimator(BaseOrdinalMIEstimator, MutualInformationEstimator):
@@ -179,6 +184,7 @@ class OrdinalMIEstimator(BaseOrdinalMIEstimator, MutualInformationEstimator):
         if self.embedding_dim == 1:
             return 0.0
 
+        self._symbolize()
         return mutual_information_global(*self.symbols, log_func=self._log_base)
 
     def _extract_local_values(self) -> ndarray[float]:
@@ -189,6 +195,7 @@ class OrdinalMIEstimator(BaseOrdinalMIEstimator, MutualInformationEstimator):
         ndarray[float]
             The calculated local values of mi.
         """
+        self._symbolize()
         return mutual_information_local(*self.symbols, log_func=self._log_base)
 
 
@@ -232,6 +239,7 @@ class OrdinalCMIEstimator(
         if self.embedding_dim == 1:
             return 0.0
 
+        self._symbolize()
         return conditional_mutual_information_global(
             *self.symbols,
             cond=self.symbols_cond,
@@ -246,6 +254,7 @@ class OrdinalCMIEstimator(
         ndarray[float]
             The calculated local values of cmi.
         """
+        self._symbolize()
         return conditional_mutual_information_local(
             *self.symbols, cond=self.symbols_cond, log_func=self._log_base
         )
-- 
2.43.0


From 2855c69207188b9fb5cb3a1e201edb9b8c20ab20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 05/32] fix: restore estimator state when a statistical test is
 interrupted

If a calculation raised during a statistical test, the estimator kept the
shuffled data or the permutation flags and later returned wrong values.
---
 infomeasure/estimators/mixins.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/infomeasure/estimators/mixins.py b/infomeasure/estimators/mixins.py
index 33a0d9d..0ced142 100644
--- a/infomeasure/estimators/mixins.py
+++ b/infomeasure/estimators/mixins.py
@@ -294,13 +294,14 @@ class StatisticalTestingMixin(RandomGeneratorMixin):
             raise ValueError(f"Invalid statistical test method: {method}.")
 
         # Generate test values
-        permuted_values = [
-            self._calculate_mi_with_data_selection(method_resample_src)
-            for _ in range(n_tests)
-        ]
-
-        # Restore the original data
-        self.data = self.original_data
+        try:
+            permuted_values = [
+                self._calculate_mi_with_data_selection(method_resample_src)
+                for _ in range(n_tests)
+            ]
+        finally:
+            # Restore the original data, also if a calculation fails
+            self.data = self.original_data
         return asarray(permuted_values)
 
     def _test_te(self, n_tests: int, method: str) -> ndarray:
@@ -335,12 +336,13 @@ class StatisticalTestingMixin(RandomGeneratorMixin):
             raise ValueError(f"Invalid statistical test method: {method}.")
 
         # Generate test values
-        permuted_values = [self._calculate() for _ in range(n_tests)]
+        try:
+            permuted_values = [self._calculate() for _ in range(n_tests)]
+        finally:
+            # Deactivate the permutation/resample flags, also if a calculation fails
+            self.permute_src, self.resample_src = False, False
         if isinstance(permuted_values[0], ndarray):
             permuted_values = [np_mean(x) for x in permuted_values]
-
-        # Deactivate the permutation/resample flags
-        self.permute_src, self.resample_src = False, False
         return asarray(permuted_values)
 
 
-- 
2.43.0


From 4bec287ad4e07c02ee6a7d513b61ee3b054f6077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 06/32] fix: use all columns of the variables in the kernel CMI

The marginal densities of multivariate data used single columns of the stacked
joint data instead of the columns belonging to each variable and condition.
---
 infomeasure/estimators/mutual_information/kernel.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/infomeasure/estimators/mutual_information/kernel.py b/infomeasure/estimators/mutual_information/kernel.py
index 4afa6c1..f92ae7a 100644
--- a/infomeasure/estimators/mutual_information/kernel.py
+++ b/infomeasure/estimators/mutual_information/kernel.py
@@ -3,7 +3,6 @@
 from abc import ABC
 
 from numpy import column_stack, ndarray, prod
-from numpy import newaxis
 
 from ..base import (
     MutualInformationEstimator,
@@ -230,15 +229,15 @@ class KernelCMIEstimator(BaseKernelMIEstimator, ConditionalMutualInformationEsti
                 ),
                 *(
                     kde_probability_density_function(
-                        joint_all[:, [i, -1]],
+                        column_stack([var, self.cond]),
                         self.bandwidth,
                         kernel=self.kernel,
                         workers=self.n_workers,
                     )
-                    for i in range(len(self.data))
+                    for var in self.data
                 ),
                 kde_probability_density_function(
-                    joint_all[:, -1, newaxis],
+                    self.cond,
                     self.bandwidth,
                     kernel=self.kernel,
                     workers=self.n_workers,
-- 
2.43.0


From 7ebd03b8234c0d39cfc3827344049ade604110be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 07/32] fix: average the KL cross-entropy over the samples of
 the first variable

The sum over the points of p was divided by the number of points of q, which
was only right for equal lengths.
---
 infomeasure/estimators/entropy/kozachenko_leonenko.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infomeasure/estimators/entropy/kozachenko_leonenko.py b/infomeasure/estimators/entropy/kozachenko_leonenko.py
index f29090b..686ee8c 100644
--- a/infomeasure/estimators/entropy/kozachenko_leonenko.py
+++ b/infomeasure/estimators/entropy/kozachenko_leonenko.py
@@ -261,7 +261,7 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
             -psi_k
             + digamma(M)
             + log(c_d)
-            + d * np_sum(log(2 * distances[distances > 0])) / M
+            + d * np_sum(log(2 * distances[distances > 0])) / len(distances)
         )
         # return in desired base
         return hx / log(self.base) if self.base != "e" else hx
-- 
2.43.0


From 88e0800ece6d19f2ed4dda7ea1d8a046c8dad14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 08/32] fix: allow k=1 in nearest-neighbor cross-entropies

KDTree.query squeezes the distances for k=1, which raised an IndexError.
---
 infomeasure/estimators/entropy/kozachenko_leonenko.py | 5 +++--
 infomeasure/estimators/utils/exponential_family.py    | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/infomeasure/estimators/entropy/kozachenko_leonenko.py b/infomeasure/estimators/entropy/kozachenko_leonenko.py
index 686ee8c..0b90f67 100644
--- a/infomeasure/estimators/entropy/kozachenko_leonenko.py
+++ b/infomeasure/estimators/entropy/kozachenko_leonenko.py
@@ -241,8 +241,9 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
         # Build a KDTree for efficient nearest neighbor search with maximum norm
         tree = KDTree(data_noisy_q)
 
-        # Find the k-th nearest neighbors for each point
-        distances, _ = tree.query(data_noisy_p, self.k, p=self.minkowski_p)
+        # Find the k-th nearest neighbor for each point
+        # (list, so that the array also stays two-dimensional for k=1)
+        distances, _ = tree.query(data_noisy_p, [self.k], p=self.minkowski_p)
         # Only keep the k-th nearest neighbor distance
         distances = distances[:, -1]
 
diff --git a/infomeasure/estimators/utils/exponential_family.py b/infomeasure/estimators/utils/exponential_family.py
index 72875f5..8fb99af 100644
--- a/infomeasure/estimators/utils/exponential_family.py
+++ b/infomeasure/estimators/utils/exponential_family.py
@@ -60,7 +60,8 @@ def calculate_common_entropy_components(data, k, at=None):
     tree = KDTree(data)
 
     # Get the k-th nearest neighbor distances
-    rho_k = tree.query(at, k=k)[0][:, k - 1]  # k+1 because the point itself is included
+    # (list, so that the array also stays two-dimensional for k=1)
+    rho_k = tree.query(at, k=[k])[0][:, 0]  # k+1 because the point itself is included
 
     return V_m, rho_k, N, m
 
-- 
2.43.0


From c0f10ea8e54508539cafc66011d0fe645dfc3208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 09/32] fix: label ordinal patterns consistently for all
 embedding dimensions

The shortcut for embedding_dim=3 labeled two patterns with their ranks instead
of their argsort, and a single window with step_size > 1 was labeled by the
whole series, so the JSD compared different patterns.
---
 infomeasure/estimators/entropy/ordinal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/infomeasure/estimators/entropy/ordinal.py b/infomeasure/estimators/entropy/ordinal.py
index e8edff6..71d8e16 100644
--- a/infomeasure/estimators/entropy/ordinal.py
+++ b/infomeasure/estimators/entropy/ordinal.py
@@ -139,8 +139,8 @@ class OrdinalEntropyEstimator(EntropyEstimator):
             (True_, True_, True_): (0, 1, 2),
             (True_, False_, True_): (0, 2, 1),
             (False_, True_, True_): (1, 0, 2),
-            (True_, False_, False_): (1, 2, 0),
-            (False_, True_, False_): (2, 0, 1),
+            (True_, False_, False_): (2, 0, 1),
+            (False_, True_, False_): (1, 2, 0),
             (False_, False_, False_): (2, 1, 0),
         }
         dist_dict = {
@@ -209,7 +209,8 @@ class OrdinalEntropyEstimator(EntropyEstimator):
             self.patterns = [0] * len(self.data[0])
             return 0.0
         elif (self.embedding_dim - 1) * self.step_size + 1 == self.data[0].shape[0]:
-            self.dist_dict = {tuple(self.data[0].argsort()): 1.0}
+            window = self.data[0][:: self.step_size]
+            self.dist_dict = {tuple(window.argsort(stable=self.stable)): 1.0}
             self.patterns = [list(self.dist_dict.keys())[0]]
             return 0.0
         probabilities, self.dist_dict, self.patterns = self._estimate_probabilities(
-- 
2.43.0


From 6870df1ddc6f4b3ac644849c5c17460915ed37bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 10/32] fix: local values of the joint and embedding_dim=1
 ordinal entropy

The patterns are plain integers in these cases, which raised a TypeError.
---
 infomeasure/estimators/entropy/ordinal.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/infomeasure/estimators/entropy/ordinal.py b/infomeasure/estimators/entropy/ordinal.py
index 71d8e16..7b573e9 100644
--- a/infomeasure/estimators/entropy/ordinal.py
+++ b/infomeasure/estimators/entropy/ordinal.py
@@ -11,6 +11,7 @@ from numpy import (
     issubdtype,
     ndarray,
     asarray,
+    isscalar,
 )
 
 from ..base import EntropyEstimator
@@ -249,7 +250,11 @@ class OrdinalEntropyEstimator(EntropyEstimator):
             The calculated local values of entropy.
         """
         # Patterns is length n - (embedding_dim - 1) * step_size
-        p_local = [self.dist_dict[tuple(pattern)] for pattern in self.patterns]
+        # patterns are tuples/arrays, or integers (joint entropy, embedding_dim=1)
+        p_local = [
+            self.dist_dict[pattern if isscalar(pattern) else tuple(pattern)]
+            for pattern in self.patterns
+        ]
         return -self._log_base(p_local)
 
     def _cross_entropy(self) -> float:
-- 
2.43.0


From c134e9419addf2791b4623e608b09a464063d0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:45 +0000
Subject: [PATCH 11/32] fix: honor stable=True in every ordinal entropy

The joint and cross-entropy and the shortcuts for embedding_dim 2 and 3 ignored
it and did not preserve the order of equal elements.
---
 infomeasure/estimators/entropy/ordinal.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/infomeasure/estimators/entropy/ordinal.py b/infomeasure/estimators/entropy/ordinal.py
index 7b573e9..1dc3682 100644
--- a/infomeasure/estimators/entropy/ordinal.py
+++ b/infomeasure/estimators/entropy/ordinal.py
@@ -185,9 +185,10 @@ class OrdinalEntropyEstimator(EntropyEstimator):
         return subarray_patterns[: len(a) - n + 1]
 
     def _estimate_probabilities(self, time_series, embedding_dim):
-        if embedding_dim == 2 and self.step_size == 1:
+        # The shortcuts do not preserve the order of equal elements
+        if embedding_dim == 2 and self.step_size == 1 and not self.stable:
             return self._estimate_probabilities_embedding_dim_2(time_series)
-        if embedding_dim == 3 and self.step_size == 1:
+        if embedding_dim == 3 and self.step_size == 1 and not self.stable:
             return self._estimate_probabilities_embedding_dim_3(time_series)
 
         # Get the length of the time series
@@ -227,7 +228,13 @@ class OrdinalEntropyEstimator(EntropyEstimator):
         """Calculate the joint entropy of the data."""
         # Symbolize separately (permutation patterns -> Lehmer codes)
         symbols = (
-            symbolize_series(marginal, self.embedding_dim, self.step_size, to_int=True)
+            symbolize_series(
+                marginal,
+                self.embedding_dim,
+                self.step_size,
+                to_int=True,
+                stable=self.stable,
+            )
             for marginal in self.data[0]  # data is tuple of time series
         )  # shape (n - (embedding_dim - 1) * step_size, num_joints)
         # Reduce the joint space
@@ -271,7 +278,9 @@ class OrdinalEntropyEstimator(EntropyEstimator):
                 "This is to have a clear definition for the support set."
             )
         symbols = tuple(
-            symbolize_series(var, self.embedding_dim, self.step_size, to_int=True)
+            symbolize_series(
+                var, self.embedding_dim, self.step_size, to_int=True, stable=self.stable
+            )
             for var in self.data
         )
         data_p = DiscreteData.from_data(symbols[0])
-- 
2.43.0


From 2ca62703912b2129695e418c910faeb9462cdc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 12/32] fix: normalize integer data in floating point

The differences of e.g. int8 data overflowed.
---
 infomeasure/estimators/utils/normalize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/infomeasure/estimators/utils/normalize.py b/infomeasure/estimators/utils/normalize.py
index 7268fef..64a21a9 100644
--- a/infomeasure/estimators/utils/normalize.py
+++ b/infomeasure/estimators/utils/normalize.py
@@ -1,5 +1,6 @@
 """Normalize a time series."""
 
+from numpy import asarray
 from numpy import max as np_max
 from numpy import min as np_min
 from numpy import ndarray
@@ -27,6 +28,7 @@ def normalize_data_0_1(data: ndarray) -> ndarray:
            [0.5, 0.5],
            [1. , 1. ]])
     """
+    data = asarray(data, dtype=float)  # differences of small integer types overflow
     min_vals = np_min(data, axis=0)
     max_vals = np_max(data, axis=0)
     return (data - min_vals) / (max_vals - min_vals)
-- 
2.43.0


From b1593e9f126ae263b9194babd7ed45d332230c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 13/32] fix: add the noise once to each condition sample in the
 KSG CMI

The noise of the whole condition was added again for every sample, so its
standard deviation grew with the square root of the number of samples.
---
 .../mutual_information/kraskov_stoegbauer_grassberger.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
index 5963ed8..5d873f9 100644
--- a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
@@ -282,7 +282,7 @@ class KSGCMIEstimator(BaseKSGMIEstimator, ConditionalMutualInformationEstimator)
             for j in range(len(data[0])):
                 for i in range(len(data)):
                     data[i][j] += self.rng.normal(0, self.noise_level, data[i][j].shape)
-                cond += self.rng.normal(0, self.noise_level, cond.shape)
+                cond[j] += self.rng.normal(0, self.noise_level, cond[j].shape)
 
         # Stack the X, Y, and Z data to form joint observations
         data_joint = column_stack((*data, cond))
-- 
2.43.0


From c9b06d47dec26b719e46aa463b1634260ae57db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 14/32] fix: Gaussian KDE of multivariate data on a small scale

The absolute eigenvalue threshold dropped dimensions (or all of them) of full
rank data with a small variance.
---
 infomeasure/estimators/utils/kde.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/infomeasure/estimators/utils/kde.py b/infomeasure/estimators/utils/kde.py
index d2c083a..f5286e8 100644
--- a/infomeasure/estimators/utils/kde.py
+++ b/infomeasure/estimators/utils/kde.py
@@ -123,6 +123,7 @@ def gaussian_kernel_densities(
         Number of workers to use for parallel processing. Default is 1.
     eigen_threshold : float, optional
         Threshold for eigenvalues to determine rank of data. Default is 1e-10.
+        If the largest eigenvalue is smaller than 1, it is relative to it.
 
     Returns
     -------
@@ -139,7 +140,10 @@ def gaussian_kernel_densities(
         values_sorted = values[sorted_indices]
         vectors_sorted = vectors[:, sorted_indices]
         # Get the number of eigenvalues greater than the threshold
-        num_non_zero_eigenvalues = np_sum(values_sorted > eigen_threshold)
+        # (relative to the largest one, if the data is on a small scale)
+        num_non_zero_eigenvalues = np_sum(
+            values_sorted > eigen_threshold * min(1.0, values_sorted[0])
+        )
         # Check projection necessary
         if num_non_zero_eigenvalues < data.shape[0]:
             logger.debug(
-- 
2.43.0


From e4afaa518b816a0dc8c97688ad76d2a7db77a0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 15/32] fix: pass step_size from im.estimator to entropy and MI
 estimators

It was only used for transfer entropy and silently dropped otherwise, so the
ordinal estimators always used step_size=1.
---
 infomeasure/estimators/functional.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/infomeasure/estimators/functional.py b/infomeasure/estimators/functional.py
index d48dc44..de8edf5 100644
--- a/infomeasure/estimators/functional.py
+++ b/infomeasure/estimators/functional.py
@@ -717,6 +717,8 @@ def estimator(
                 "For cross-entropy, pass two separate RVs, e.g., estimator(p, q)."
             )
         EstimatorClass = _get_estimator(entropy_estimators, approach)
+        if step_size != 1:
+            kwargs["step_size"] = step_size
         return EstimatorClass(*data, **kwargs)
     elif measure_comp in [
         "mutual_information",
@@ -731,6 +733,8 @@ def estimator(
             )
         if len(data) == 0:
             raise ValueError("No data was provided for mutual information estimation.")
+        if step_size != 1:
+            kwargs["step_size"] = step_size
         if len(data) == 1:
             logger.warning(
                 "Only one data array provided for mutual information estimation. "
-- 
2.43.0


From c34be92ff1a5bf49d9fc39300ad4bb274641eaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 16/32] fix: accept offset=None for the mutual information

It is allowed explicitly for more variables, but raised a TypeError.
---
 infomeasure/estimators/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index f6f7256..9b3308f 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -496,7 +496,7 @@ class MutualInformationEstimator(
                 f"not {[var.shape[0] for var in self.data]}."
             )
         # Apply the offset
-        self.offset = offset
+        self.offset = 0 if offset is None else offset
         if self.offset > 0:
             self.data = (
                 self.data[0][: -self.offset or None],
-- 
2.43.0


From e72f6d3009674f53a1530fcc30e7d5563b2773cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 17/32] fix: case-insensitive approach for the MI of a single
 variable

Like everywhere else; an unknown approach raised a KeyError.
---
 infomeasure/estimators/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infomeasure/estimators/functional.py b/infomeasure/estimators/functional.py
index de8edf5..e5aec1c 100644
--- a/infomeasure/estimators/functional.py
+++ b/infomeasure/estimators/functional.py
@@ -741,7 +741,7 @@ def estimator(
                 "Using normal entropy estimator."
             )
             EstimatorClass = _get_estimator(
-                entropy_estimators, mi_entropy_map[approach]
+                entropy_estimators, mi_entropy_map.get(str(approach).lower())
             )
             return EstimatorClass(data[0], **kwargs)
         if cond is not None:
-- 
2.43.0


From db5fe9cccca3c64a54bb67cf90994fc5cbedaca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 18/32] fix: case-insensitive min-max prior of the Bayes
 entropy

All prior names are compared in lower case, except for this one.
---
 infomeasure/estimators/entropy/bayes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infomeasure/estimators/entropy/bayes.py b/infomeasure/estimators/entropy/bayes.py
index fc9d3c0..deed92b 100644
--- a/infomeasure/estimators/entropy/bayes.py
+++ b/infomeasure/estimators/entropy/bayes.py
@@ -136,7 +136,7 @@ class BayesEntropyEstimator(DiscreteHEstimator):
             return 1.0
         elif alpha.lower() == "sch-grass":
             return 1 / K
-        elif alpha == "min-max":
+        elif alpha.lower() == "min-max":
             return N**0.5 / K
         raise ValueError(
             f"Concentration parameter '{alpha}' not recognized. "
-- 
2.43.0


From 9598490963eebb833e1bd048d31d2ac6907eadc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 19/32] fix: label multi-column samples consistently across
 variables in cross-entropy and JSD

---
 infomeasure/composite_measures/jsd.py | 10 +++++++++-
 infomeasure/estimators/base.py        |  8 ++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/infomeasure/composite_measures/jsd.py b/infomeasure/composite_measures/jsd.py
index 1dc1475..ea3b9fc 100644
--- a/infomeasure/composite_measures/jsd.py
+++ b/infomeasure/composite_measures/jsd.py
@@ -1,6 +1,7 @@
 """Jensen-Shannon Divergence (JSD)."""
 
-from numpy import sum as np_sum, concatenate, ndarray
+from numpy import asarray, concatenate, cumsum, ndarray, split
+from numpy import sum as np_sum
 
 from ..estimators.entropy import (
     RenyiEntropyEstimator,
@@ -13,6 +14,7 @@ from ..estimators.entropy import (
     ShrinkEntropyEstimator,
 )
 from ..estimators.functional import get_estimator_class
+from ..estimators.utils.ordinal import reduce_joint_space
 
 
 def jensen_shannon_divergence(*data, approach: str | None = None, **kwargs):
@@ -81,6 +83,12 @@ def jensen_shannon_divergence(*data, approach: str | None = None, **kwargs):
             ShrinkEntropyEstimator,
         ),
     ):
+        if not issubclass(estimator_class, OrdinalEntropyEstimator) and all(
+            asarray(var).ndim == 2 for var in data
+        ):
+            # Same co-occurrences need to have the same label in all random variables
+            labels = reduce_joint_space(concatenate(data, axis=0))
+            data = split(labels, cumsum([len(var) for var in data])[:-1])
         estimators = tuple(estimator_class(var, **kwargs) for var in data)
         marginal = sum(estimator.global_val() for estimator in estimators) / len(data)
         # the distributions have some matching and some unique keys, create a new dict
diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 9b3308f..6d94d3f 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -7,6 +7,7 @@ from typing import Generic, final, Sequence
 
 from numpy import (
     asarray,
+    concatenate,
     integer,
     issubdtype,
     log,
@@ -1273,6 +1274,13 @@ class DiscreteHEstimator(EntropyEstimator, ABC):
             # we can reduce the values to unique integers.
             # In case of having multiple random variables (tuple or list),
             # this enumerates the unique co-occurrences.
+            if len(self.data) == 2 and all(reduce):
+                # For cross-entropy, the same co-occurrence needs to have the same
+                # label in both random variables.
+                labels = reduce_joint_space(concatenate(self.data, axis=0))
+                n_first = len(self.data[0])
+                self.data = (labels[:n_first], labels[n_first:])
+                return
             self.data = tuple(
                 reduce_joint_space(var) if red else var
                 for var, red in zip(self.data, reduce)
-- 
2.43.0


From c12056e17a362dd7aef06984fd8d542d9865b043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 20/32] fix: keep values distinct when joining variables of
 different data types

---
 infomeasure/estimators/utils/ordinal.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/infomeasure/estimators/utils/ordinal.py b/infomeasure/estimators/utils/ordinal.py
index 54661bf..9cb3225 100644
--- a/infomeasure/estimators/utils/ordinal.py
+++ b/infomeasure/estimators/utils/ordinal.py
@@ -10,6 +10,7 @@ from numpy import (
     zeros,
     sum as np_sum,
     array,
+    asarray,
     uint64,
     iinfo,
     unique,
@@ -200,6 +201,10 @@ def reduce_joint_space(data: ndarray | tuple[ndarray] | Generator) -> ndarray:
     if isinstance(data, Generator):
         data = tuple(data)
     if isinstance(data, tuple):
+        if len({asarray(var).dtype for var in data}) > 1:
+            # Values that differ may be equal in the common data type,
+            # e.g. large ``int64`` and ``uint64`` values, so enumerate them beforehand.
+            data = tuple(unique(var, axis=0, return_inverse=True)[1] for var in data)
         data = column_stack(data)
     if data.ndim == 2:
         # Reduce the data to the joint space using the numpy unique function
-- 
2.43.0


From c488c37f208e8df1a95449ebd3f808d792fa5031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 21/32] fix: NSB entropy crashing the interpreter when its
 integrand overflows

---
 infomeasure/estimators/entropy/nsb.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/infomeasure/estimators/entropy/nsb.py b/infomeasure/estimators/entropy/nsb.py
index daa8236..c14945f 100644
--- a/infomeasure/estimators/entropy/nsb.py
+++ b/infomeasure/estimators/entropy/nsb.py
@@ -2,7 +2,7 @@
 
 from functools import lru_cache
 
-from numpy import exp, log, nan
+from numpy import exp, finfo, geomspace, log, nan
 from scipy.integrate import quad
 from scipy.optimize import minimize_scalar, root_scalar
 from scipy.special import loggamma, digamma, polygamma
@@ -107,6 +107,14 @@ class NsbEntropyEstimator(DiscreteHEstimator):
         # Find the extremum of log rho for numerical stability
         l0 = self._find_l0(K, N, counts)
 
+        # The integration routine can crash the interpreter on infinite values
+        if K > 1 and any(
+            l0 - self._neg_log_rho(beta, K, N, counts) > log(finfo(float).max)
+            for beta in geomspace(1e-6 * log_K, log_K, num=50)
+        ):
+            logger.warning("NSB integration failed - integrand overflows")
+            return nan
+
         # Numerical integration for NSB estimate
         try:
             # Numerator: integral of rho * bayes_entropy
-- 
2.43.0


From e5824e76f4d08f7e86571b0df10496d86a9be3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 22/32] fix: reject non-integer and too large k in the KSG
 estimators

---
 .../kraskov_stoegbauer_grassberger.py         | 26 ++++++++++++++++++-
 .../kraskov_stoegbauer_grassberger.py         | 19 +++++++++++++-
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
index 5d873f9..29cd3fa 100644
--- a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
@@ -2,7 +2,16 @@
 
 from abc import ABC
 
-from numpy import column_stack, inf, array, ndarray, log, nextafter
+from numpy import (
+    array,
+    column_stack,
+    inf,
+    integer,
+    issubdtype,
+    log,
+    ndarray,
+    nextafter,
+)
 from scipy.spatial import KDTree
 from scipy.special import digamma
 
@@ -107,6 +116,11 @@ class BaseKSGMIEstimator(ABC):
             )
             # Ensure self.cond is a 2D array
             self.cond = assure_2d_data(self.cond)
+        if not issubdtype(type(k), integer) or k <= 0:
+            raise ValueError(
+                "The number of nearest neighbors (k) must be a positive "
+                f"integer, but got {k}."
+            )
         self.k = k
         if ksg_id not in {1, 2}:
             raise ValueError(f"ksg_id must be 1 or 2, but got {ksg_id}.")
@@ -172,6 +186,11 @@ class KSGMIEstimator(BaseKSGMIEstimator, MutualInformationEstimator):
 
         # Stack the X and Y data to form joint observations
         data_joint = column_stack(data)
+        if self.k >= len(data_joint):
+            raise ValueError(
+                "The number of nearest neighbors must be smaller "
+                "than the number of data points."
+            )
 
         # Create a KDTree for joint data to find nearest neighbors using the maximum
         # norm
@@ -286,6 +305,11 @@ class KSGCMIEstimator(BaseKSGMIEstimator, ConditionalMutualInformationEstimator)
 
         # Stack the X, Y, and Z data to form joint observations
         data_joint = column_stack((*data, cond))
+        if self.k >= len(data_joint):
+            raise ValueError(
+                "The number of nearest neighbors must be smaller "
+                "than the number of data points."
+            )
 
         # Create KDTree for efficient nearest neighbor search in joint space
         tree_joint = KDTree(data_joint)
diff --git a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
index da9a9f2..4587e10 100644
--- a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
@@ -2,7 +2,7 @@
 
 from abc import ABC
 
-from numpy import array, inf, ndarray, log, nextafter
+from numpy import array, inf, integer, issubdtype, ndarray, log, nextafter
 from scipy.spatial import KDTree
 from scipy.special import digamma
 
@@ -130,6 +130,11 @@ class BaseKSGTEEstimator(ABC):
                 base=base,
                 **kwargs,
             )
+        if not issubdtype(type(k), integer) or k <= 0:
+            raise ValueError(
+                "The number of nearest neighbors (k) must be a positive "
+                f"integer, but got {k}."
+            )
         self.k = k
         if ksg_id not in {1, 2}:
             raise ValueError(f"ksg_id must be 1 or 2, but got {ksg_id}.")
@@ -204,6 +209,12 @@ class KSGTEEstimator(BaseKSGTEEstimator, TransferEntropyEstimator):
             resample_src=self.resample_src,
         )
 
+        if self.k >= len(joint_space_data):
+            raise ValueError(
+                "The number of nearest neighbors must be smaller "
+                "than the number of data points."
+            )
+
         # Create KDTree for efficient nearest neighbor search in joint space
         tree_joint = KDTree(joint_space_data)
 
@@ -351,6 +362,12 @@ class KSGCTEEstimator(BaseKSGTEEstimator, ConditionalTransferEntropyEstimator):
             step_size=self.step_size,
         )
 
+        if self.k >= len(joint_space_data):
+            raise ValueError(
+                "The number of nearest neighbors must be smaller "
+                "than the number of data points."
+            )
+
         # Create KDTree for efficient nearest neighbor search in joint space
         tree_joint = KDTree(joint_space_data)
 
-- 
2.43.0


From 2b2e9cd884f61566b08f215b54ee8eb03a690e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:04 +0000
Subject: [PATCH 23/32] fix: reject too large k in the Kozachenko-Leonenko
 estimator

---
 .../estimators/entropy/kozachenko_leonenko.py        | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/infomeasure/estimators/entropy/kozachenko_leonenko.py b/infomeasure/estimators/entropy/kozachenko_leonenko.py
index 0b90f67..2cc46e3 100644
--- a/infomeasure/estimators/entropy/kozachenko_leonenko.py
+++ b/infomeasure/estimators/entropy/kozachenko_leonenko.py
@@ -182,6 +182,12 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
         if self.noise_level and self.noise_level != 0:
             data_noisy += self.rng.normal(0, self.noise_level, self.data[0].shape)
 
+        if self.k >= len(data_noisy):
+            raise ValueError(
+                "The number of nearest neighbors must be smaller "
+                "than the number of data points."
+            )
+
         # Build a KDTree for efficient nearest neighbor search with maximum norm
         tree = KDTree(data_noisy)
 
@@ -238,6 +244,12 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
             data_noisy_p += self.rng.normal(0, self.noise_level, self.data[0].shape)
             data_noisy_q += self.rng.normal(0, self.noise_level, self.data[1].shape)
 
+        if self.k > len(data_noisy_q):
+            raise ValueError(
+                "The number of nearest neighbors must be smaller "
+                "than the number of data points."
+            )
+
         # Build a KDTree for efficient nearest neighbor search with maximum norm
         tree = KDTree(data_noisy_q)
 
-- 
2.43.0


From f78365b9809b27f16d5788d1c0e25772a9992ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:26 +0000
Subject: [PATCH 24/32] fix: reject offsets that leave no data for the mutual
 information

---
 infomeasure/estimators/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 6d94d3f..0e73c9f 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -498,6 +498,11 @@ class MutualInformationEstimator(
             )
         # Apply the offset
         self.offset = 0 if offset is None else offset
+        if abs(self.offset) >= self.data[0].shape[0]:
+            raise ValueError(
+                f"The offset {self.offset} must be smaller than the length of the data "
+                f"({self.data[0].shape[0]})."
+            )
         if self.offset > 0:
             self.data = (
                 self.data[0][: -self.offset or None],
-- 
2.43.0


From f7f3683b14d1aaccc14459b387fa95d866f4f424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 25/32] fix: reject empty data in every entropy estimator

---
 infomeasure/estimators/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 0e73c9f..6a6fde2 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -331,6 +331,13 @@ class EntropyEstimator(Estimator["EntropyEstimator"], ABC):
             for var in data
         )
 
+        if any(
+            len(d) == 0
+            for var in self.data
+            for d in (var if isinstance(var, tuple) else (var,))
+        ):
+            raise ValueError("`data` must not be empty.")
+
         # differing lengths are allowed for cross-entropy, but not inside joint RVs
         for var in self.data:
             if isinstance(var, tuple) and any(len(d) != len(var[0]) for d in var):
-- 
2.43.0


From f0eef525d96716f99098f7379dad4177da8764d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:00 +0000
Subject: [PATCH 26/32] fix: keep values distinct in the discrete TE of
 variables with different data types

---
 infomeasure/estimators/base.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 6a6fde2..e5fcb7f 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -14,6 +14,7 @@ from numpy import (
     log2,
     log10,
     ndarray,
+    unique,
 )
 from numpy import mean as np_mean
 from numpy import sum as np_sum
@@ -29,6 +30,21 @@ from .utils.te_slicing import cte_observations, te_observations
 from .utils.ordinal import reduce_joint_space
 
 
+def _enumerate_mixed_types(estimator, *variables: ndarray) -> tuple[ndarray, ...]:
+    """Enumerate the values of discrete variables with different data types.
+
+    Values that differ may be equal in the common data type of a joint space,
+    e.g. large ``int64`` and ``uint64`` values.
+    """
+    if not issubclass(estimator, DiscreteHEstimator) or (
+        len({var.dtype for var in variables}) == 1
+    ):
+        return variables
+    return tuple(
+        unique(var, return_inverse=True)[1].reshape(var.shape) for var in variables
+    )
+
+
 class Estimator(Generic[EstimatorType], ABC):
     """Abstract base class for all measure estimators.
 
@@ -919,6 +935,7 @@ class TransferEntropyEstimator(
             source += self.rng.normal(0, noise_level, source.shape)
             dest += self.rng.normal(0, noise_level, dest.shape)
 
+        source, dest = _enumerate_mixed_types(estimator, source, dest)
         (
             joint_space_data,
             dest_past_embedded,
@@ -1074,6 +1091,7 @@ class ConditionalTransferEntropyEstimator(
             dest += self.rng.normal(0, noise_level, dest.shape)
             cond += self.rng.normal(0, noise_level, cond.shape)
 
+        source, dest, cond = _enumerate_mixed_types(estimator, source, dest, cond)
         (
             joint_space_data,
             dest_past_embedded,
-- 
2.43.0


From f48d59ffc1f69273a8da7e647d9dbf89628dbebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:57 +0000
Subject: [PATCH 27/32] fix: cancellation in the Chao Wang Jost entropy with
 few singletons and many doubletons

---
 infomeasure/estimators/entropy/chao_wang_jost.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/infomeasure/estimators/entropy/chao_wang_jost.py b/infomeasure/estimators/entropy/chao_wang_jost.py
index e4df93c..56f9811 100644
--- a/infomeasure/estimators/entropy/chao_wang_jost.py
+++ b/infomeasure/estimators/entropy/chao_wang_jost.py
@@ -1,6 +1,6 @@
 """Module for the Chao Wang Jost entropy estimator."""
 
-from numpy import log
+from numpy import arange, log, log1p
 from numpy import sum as np_sum
 from scipy.special import digamma
 
@@ -130,9 +130,15 @@ class ChaoWangJostEntropyEstimator(DiscreteHEstimator):
         ).sum() / N
         # Second part: correction term when A != 1
         if A != 1 and f1 > 0:
-            # Calculate sum_{r=1}^{N-1} (1/r) * (1-A)^r
-            p2 = sum(1 / r * (1 - A) ** r for r in range(1, N))
-            correction = f1 / N * (1 - A) ** (1 - N) * (-log(A) - p2)
+            if -(N - 1) * log1p(-A) < 5:
+                # Calculate sum_{r=1}^{N-1} (1/r) * (1-A)^r
+                p2 = sum(1 / r * (1 - A) ** r for r in range(1, N))
+                correction = f1 / N * (1 - A) ** (1 - N) * (-log(A) - p2)
+            else:
+                # (1-A)^(1-N) is large and the difference above cancels, so sum the
+                # remaining terms of the series of -log(A), from r = N on
+                r = arange(N, N + int(40 / A) + 1)
+                correction = f1 / N * np_sum((1 - A) ** (r - N + 1.0) / r)
             cwj += correction
 
         # Convert to the desired base
-- 
2.43.0


From cdc0a6e6f10fdf240fa241e3985b9134d262aec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:20 +0000
Subject: [PATCH 28/32] =?UTF-8?q?fix:=20R=C3=A9nyi=20and=20Tsallis=20entro?=
 =?UTF-8?q?pies=20were=20not=20finite=20for=20more=20than=20171=20neighbou?=
 =?UTF-8?q?rs?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 infomeasure/estimators/utils/exponential_family.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/infomeasure/estimators/utils/exponential_family.py b/infomeasure/estimators/utils/exponential_family.py
index 8fb99af..2701eb3 100644
--- a/infomeasure/estimators/utils/exponential_family.py
+++ b/infomeasure/estimators/utils/exponential_family.py
@@ -7,7 +7,7 @@ functions for these distributions.
 
 from numpy import pi, sum as np_sum, exp as np_exp
 from scipy.spatial import KDTree
-from scipy.special import gamma, digamma
+from scipy.special import gamma, digamma, poch
 
 
 def calculate_common_entropy_components(data, k, at=None):
@@ -94,7 +94,9 @@ def exponential_family_iq(k, q, V_m, rho_k, N, m):
     """
     if q == k + 1:  # In this case, C_k is complex infinite and (C_k)^-q = 0 for real q.
         return 0.0
-    C_k = (gamma(k) / gamma(k + 1 - q)) ** (1 / (1 - q))
+    # gamma(k) / gamma(k + 1 - q), as Pochhammer symbol when gamma(k) would overflow
+    ratio = gamma(k) / gamma(k + 1 - q) if k < 171 else poch(k + 1 - q, q - 1)
+    C_k = ratio ** (1 / (1 - q))
     return (
         (N * C_k * V_m) ** (1 - q)
         * np_sum((rho_k[rho_k > 0] ** m) ** (1 - q))
-- 
2.43.0


From 5dd1d41632d0d2ca0b9fa23efef4f833efd6053f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:00 +0000
Subject: [PATCH 29/32] =?UTF-8?q?fix:=20R=C3=A9nyi=20and=20Tsallis=20entro?=
 =?UTF-8?q?pies=20of=20an=20order=20next=20to=201=20were=20rounding=20nois?=
 =?UTF-8?q?e?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 infomeasure/estimators/entropy/renyi.py   | 4 ++--
 infomeasure/estimators/entropy/tsallis.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/infomeasure/estimators/entropy/renyi.py b/infomeasure/estimators/entropy/renyi.py
index 3e6fbec..e062674 100644
--- a/infomeasure/estimators/entropy/renyi.py
+++ b/infomeasure/estimators/entropy/renyi.py
@@ -81,7 +81,7 @@ class RenyiEntropyEstimator(EntropyEstimator):
         """
         V_m, rho_k, N, m = calculate_common_entropy_components(self.data[0], self.k)
 
-        if self.alpha != 1:
+        if abs(self.alpha - 1) > 1e-8:  # closer to 1, the limit is more accurate
             # Renyi entropy for alpha != 1
             I_N_k_a = exponential_family_iq(self.k, self.alpha, V_m, rho_k, N - 1, m)
             if I_N_k_a == 0:
@@ -117,7 +117,7 @@ class RenyiEntropyEstimator(EntropyEstimator):
             self.data[1], self.k, at=self.data[0]
         )
 
-        if self.alpha != 1:
+        if abs(self.alpha - 1) > 1e-8:  # closer to 1, the limit is more accurate
             # Renyi cross-entropy for alpha != 1
             I_N_k_a = exponential_family_iq(self.k, self.alpha, V_m, rho_k, M, m)
             if I_N_k_a == 0:
diff --git a/infomeasure/estimators/entropy/tsallis.py b/infomeasure/estimators/entropy/tsallis.py
index c0a27fb..78ac07d 100644
--- a/infomeasure/estimators/entropy/tsallis.py
+++ b/infomeasure/estimators/entropy/tsallis.py
@@ -79,7 +79,7 @@ class TsallisEntropyEstimator(EntropyEstimator):
         """
         V_m, rho_k, N, m = calculate_common_entropy_components(self.data[0], self.k)
 
-        if self.q != 1:
+        if abs(self.q - 1) > 1e-8:  # closer to 1, the limit is more accurate
             # Tsallis entropy for q != 1
             I_N_k_q = exponential_family_iq(self.k, self.q, V_m, rho_k, N - 1, m)
             if I_N_k_q == 0:
@@ -115,7 +115,7 @@ class TsallisEntropyEstimator(EntropyEstimator):
             self.data[1], self.k, at=self.data[0]
         )
 
-        if self.q != 1:
+        if abs(self.q - 1) > 1e-8:  # closer to 1, the limit is more accurate
             # Renyi cross-entropy for q != 1
             I_N_k_q = exponential_family_iq(self.k, self.q, V_m, rho_k, M, m)
             if I_N_k_q == 0:
-- 
2.43.0


From a8e513a2b04b9331889ad1aaf04f8ea9fdac8761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:51 +0000
Subject: [PATCH 30/32] fix: Gaussian KDE of linearly dependent variables
 failed with complex eigenvectors

---
 infomeasure/estimators/utils/kde.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/infomeasure/estimators/utils/kde.py b/infomeasure/estimators/utils/kde.py
index f5286e8..70a1648 100644
--- a/infomeasure/estimators/utils/kde.py
+++ b/infomeasure/estimators/utils/kde.py
@@ -13,7 +13,7 @@ from numpy import (
     number,
 )
 from numpy import sum as np_sum
-from numpy.linalg import eig
+from numpy.linalg import eigh
 from scipy.spatial import KDTree
 from scipy.stats import gaussian_kde
 
@@ -135,7 +135,8 @@ def gaussian_kernel_densities(
         # Calculate covariance matrix
         covariance_matrix = cov(data)
         # Get eigenvalues and eigenvectors
-        values, vectors = eig(covariance_matrix)
+        # (the general solver returns complex ones for singular matrices)
+        values, vectors = eigh(covariance_matrix)
         sorted_indices = argsort(values)[::-1]
         values_sorted = values[sorted_indices]
         vectors_sorted = vectors[:, sorted_indices]
-- 
2.43.0


From 6f22aed0b4b74779ef8e0de54403520c7dd44ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:52 +0000
Subject: [PATCH 31/32] fix: Gaussian KDE of linearly dependent variables on a
 large scale kept rounding noise as a dimension

---
 infomeasure/estimators/utils/kde.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/infomeasure/estimators/utils/kde.py b/infomeasure/estimators/utils/kde.py
index 70a1648..271cf06 100644
--- a/infomeasure/estimators/utils/kde.py
+++ b/infomeasure/estimators/utils/kde.py
@@ -8,6 +8,7 @@ from numpy import (
     concatenate,
     cov,
     dot,
+    finfo,
     inf,
     issubdtype,
     number,
@@ -141,9 +142,14 @@ def gaussian_kernel_densities(
         values_sorted = values[sorted_indices]
         vectors_sorted = vectors[:, sorted_indices]
         # Get the number of eigenvalues greater than the threshold
-        # (relative to the largest one, if the data is on a small scale)
+        # (relative to the largest one, if the data is on a small scale,
+        # and above the rounding error of the largest one on a large scale)
         num_non_zero_eigenvalues = np_sum(
-            values_sorted > eigen_threshold * min(1.0, values_sorted[0])
+            values_sorted
+            > max(
+                eigen_threshold * min(1.0, values_sorted[0]),
+                100 * finfo(float).eps * values_sorted[0],
+            )
         )
         # Check projection necessary
         if num_non_zero_eigenvalues < data.shape[0]:
-- 
2.43.0


From 28e56f9b14e861fefae8c3faeec7ef25f89e3437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 32/32] fix: the Chao-Shen entropy lost digits for large
 samples of many rare states

---
 infomeasure/estimators/entropy/chao_shen.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/infomeasure/estimators/entropy/chao_shen.py b/infomeasure/estimators/entropy/chao_shen.py
index 392acb4..c8e69d2 100644
--- a/infomeasure/estimators/entropy/chao_shen.py
+++ b/infomeasure/estimators/entropy/chao_shen.py
@@ -1,6 +1,6 @@
 """Module for the Chao-Shen entropy estimator."""
 
-from numpy import sum as np_sum, log
+from numpy import errstate, expm1, log, log1p, sum as np_sum
 
 from infomeasure.estimators.base import DiscreteHEstimator
 from ...utils.exceptions import TheoreticalInconsistencyError
@@ -52,7 +52,10 @@ class ChaoShenEntropyEstimator(DiscreteHEstimator):
         pa = (  # Coverage adjusted empirical frequencies
             C * self.data[0].probabilities
         )
-        la = 1 - (1 - pa) ** N  # Probability to see a bin (species) in the sample
+        # Probability to see a bin (species) in the sample: 1 - (1 - pa) ** N,
+        # without losing digits for the small probabilities of large samples
+        with errstate(divide="ignore"):  # pa = 1, if there is only one species
+            la = -expm1(N * log1p(-pa))
 
         # Chao-Shen (2003) entropy estimator
         h = -np_sum(pa * log(pa) / la)
-- 
2.43.0

