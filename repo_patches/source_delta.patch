From bca49544581e539ffcc98ee126144fc3ea0c7f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:38 +0000
Subject: [PATCH 01/18] fix: pass user parameters on in the SMEFT basis
 translators

---
 wcxf/translators/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wcxf/translators/__init__.py b/wcxf/translators/__init__.py
index b432a7c..cba69fa 100644
--- a/wcxf/translators/__init__.py
+++ b/wcxf/translators/__init__.py
@@ -5,17 +5,17 @@ import wcxf
 
 @wcxf.translator('SMEFT', 'Warsaw', 'Warsaw mass')
 def warsaw_to_warsawmass(C, scale, parameters):
-    return smeft.warsaw_to_warsawmass(C)
+    return smeft.warsaw_to_warsawmass(C, parameters)
 
 
 @wcxf.translator('SMEFT', 'Warsaw', 'Warsaw up')
 def warsaw_to_warsaw_up(C, scale, parameters):
-    return smeft.warsaw_to_warsaw_up(C)
+    return smeft.warsaw_to_warsaw_up(C, parameters)
 
 
 @wcxf.translator('SMEFT', 'Warsaw up', 'Warsaw')
 def warsaw_up_to_warsaw(C, scale, parameters):
-    return smeft.warsaw_up_to_warsaw(C)
+    return smeft.warsaw_up_to_warsaw(C, parameters)
 
 
 @wcxf.translator('WET', 'JMS', 'flavio')
-- 
2.43.0


From 376c0af9eccf440d22a5e438cc5e701ab6c0f355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:38 +0000
Subject: [PATCH 02/18] fix: do not modify the parent basis when defining a
 child basis

---
 wcxf/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 7392821..dcd0de3 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -222,7 +222,8 @@ class Basis(WCxf, NamedInstanceClass):
             setattr(self, k, v)
         if hasattr(self, 'parent'):
             try:
-                self.sectors = Basis[self.eft, self.parent].sectors
+                # copy, so that the parent basis itself is left untouched
+                self.sectors = OrderedDict(Basis[self.eft, self.parent].sectors)
                 self.sectors.update(sectors)
             except (AttributeError, KeyError):
                 raise ValueError("Parent basis {} not found".format(self.parent))
-- 
2.43.0


From 91824bdb11bc88e788c3cebeeea7c5c3fd42cefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:05 +0000
Subject: [PATCH 03/18] fix: rotate dipole, S8ddRR and baryon number violating
 coefficients in rotate_down

---
 wcxf/translators/wet.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/wcxf/translators/wet.py b/wcxf/translators/wet.py
index 7421d5a..2fd4548 100644
--- a/wcxf/translators/wet.py
+++ b/wcxf/translators/wet.py
@@ -948,6 +948,11 @@ def rotate_down(C_in, p):
     C = C_in.copy()
     V = ckmutil.ckm.ckm_tree(p["Vus"], p["Vub"], p["Vcb"], p["gamma"])
     UdL = V
+    # type dL X (dipoles)
+    for k in ['dgamma', 'dG']:
+        C[k] = np.einsum('ia,ij->aj',
+                         UdL.conj(),
+                         C_in[k])
     # type dL dL dL dL
     for k in ['VddLL']:
         C[k] = np.einsum('ia,jb,kc,ld,ijkl->abcd',
@@ -964,7 +969,7 @@ def rotate_down(C_in, p):
                          UdL.conj(), UdL,
                          C_in[k])
     # type dL X dL X
-    for k in ['S1ddRR', ]:
+    for k in ['S1ddRR', 'S8ddRR']:
         C[k] = np.einsum('ia,kc,ijkl->ajcl',
                          UdL.conj(), UdL.conj(),
                          C_in[k])
@@ -984,6 +989,22 @@ def rotate_down(C_in, p):
         C[k] = np.einsum('ld,ijkl->ijkd',
                          UdL,
                          C_in[k])
+    # baryon number violating operators (no barred quark fields)
+    # type dL X X X
+    for k in ['SduuLL', 'SduuLR']:
+        C[k] = np.einsum('ia,ijkl->ajkl',
+                         UdL,
+                         C_in[k])
+    # type X dL dL X
+    for k in ['SuddLL']:
+        C[k] = np.einsum('jb,kc,ijkl->ibcl',
+                         UdL, UdL,
+                         C_in[k])
+    # type X X dL X
+    for k in ['SdudRL']:
+        C[k] = np.einsum('kc,ijkl->ijcl',
+                         UdL,
+                         C_in[k])
     return C
 
 
-- 
2.43.0


From 4f3cf24e19bb6b92c6c86f2d15fc85ad9a83ccc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:05 +0000
Subject: [PATCH 04/18] fix: m_c at scale m_c only needs no running for f=4;
 reject invalid f

---
 wcxf/util/qcd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wcxf/util/qcd.py b/wcxf/util/qcd.py
index 8ccf8b2..a6afd10 100644
--- a/wcxf/util/qcd.py
+++ b/wcxf/util/qcd.py
@@ -6,7 +6,7 @@ def _sane(scale, f):
     """Check if scale and no. of flavours are sane"""
     if not isinstance(scale, (float, int)) or scale <= 0:
         raise ValueError("Scale must be a positive number")
-    if not isinstance(f, int) and 3 <= f <= 6:
+    if not isinstance(f, int) or not 3 <= f <= 6:
         raise ValueError("f must be an integer between 3 and 6")
 
 
@@ -90,7 +90,7 @@ def m_b(mbmb, scale, f, alphasMZ=0.1185):
 def m_c(mcmc, scale, f, alphasMZ=0.1185):
     r"""Get running c quark mass in the MSbar scheme at the scale `scale`
     in the theory with `f` dynamical quark flavours starting from $m_c(m_c)$"""
-    if scale == mcmc:
+    if scale == mcmc and f == 4:
         return mcmc  # nothing to do
     _sane(scale, f)
     loop = 3
-- 
2.43.0


From 530908577db531077b0542a58b9804c9bd5b5e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:05 +0000
Subject: [PATCH 05/18] fix: add scalars, not arrays, for missing coefficients
 without flavour indices

---
 wcxf/util/smeftutil.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wcxf/util/smeftutil.py b/wcxf/util/smeftutil.py
index 9d1dc82..6213df4 100644
--- a/wcxf/util/smeftutil.py
+++ b/wcxf/util/smeftutil.py
@@ -570,10 +570,12 @@ def symmetrize(C):
 
 
 def add_missing(C):
-    """Add arrays with zeros for missing Wilson coefficient keys"""
+    """Add zeros (arrays, or numbers for the coefficients without flavour
+    indices) for missing Wilson coefficient keys"""
     C_out = C.copy()
     for k in (set(WC_keys) - set(C.keys())):
-        C_out[k] = np.zeros(C_keys_shape[k])
+        s = C_keys_shape[k]
+        C_out[k] = 0 if s == 1 else np.zeros(s)
     return C_out
 
 
-- 
2.43.0


From 80f275bb8157947bf5ad8a67085a891bd0f1e694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:07 +0000
Subject: [PATCH 06/18] fix: FormFlavor lepton dipoles are normalised to e for
 both chiralities

---
 wcxf/translators/wet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/translators/wet.py b/wcxf/translators/wet.py
index 2fd4548..7d53bc4 100644
--- a/wcxf/translators/wet.py
+++ b/wcxf/translators/wet.py
@@ -865,7 +865,7 @@ def JMS_to_FormFlavor_chrom(C, qq, parameters):
         l2 = llflav[qq[1]]
         return {
             'CAR_' + qq : C['egamma'][l1, l2] / e,
-            'CAL_' + qq : C['egamma'][l2, l1].conj() / gs,
+            'CAL_' + qq : C['egamma'][l2, l1].conj() / e,
                 }
     if qq[0] in uflav.keys():
         u = uflav[qq[0]]
-- 
2.43.0


From 53e3d064bd46001e47b9d1da6b367b9123e8693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:07 +0000
Subject: [PATCH 07/18] fix: FormFlavor s->d nu nu coefficients must not depend
 on the b->q transition

---
 wcxf/translators/wet.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wcxf/translators/wet.py b/wcxf/translators/wet.py
index 7d53bc4..6715694 100644
--- a/wcxf/translators/wet.py
+++ b/wcxf/translators/wet.py
@@ -714,12 +714,12 @@ def JMS_to_FormFlavor_lep(C, dd):
         'CSRL_' + dd + 'mm' : C["SedRL"][1, 1, b, s].conj(),
         'CTLL_' + dd + 'mm' : C["TedRR"][1, 1, b, s].conj(),
         'CTRR_' + dd + 'mm' : C["TedRR"][1, 1, s, b],
-        'CVLL_sdnn' : 1 / 3 * C["VnudLL"][0, 0, s-1, s]
-                      + 1 / 3 * C["VnudLL"][1, 1, s-1, s]
-                      + 1 / 3 * C["VnudLL"][2, 2, s-1, s],
-        'CVRL_sdnn' : 1 / 3 * C["VnudLR"][0, 0, s-1, s]
-                      + 1 / 3 * C["VnudLR"][1, 1, s-1, s]
-                      + 1 / 3 * C["VnudLR"][2, 2, s-1, s]
+        'CVLL_sdnn' : 1 / 3 * C["VnudLL"][0, 0, 0, 1]
+                      + 1 / 3 * C["VnudLL"][1, 1, 0, 1]
+                      + 1 / 3 * C["VnudLL"][2, 2, 0, 1],
+        'CVRL_sdnn' : 1 / 3 * C["VnudLR"][0, 0, 0, 1]
+                      + 1 / 3 * C["VnudLR"][1, 1, 0, 1]
+                      + 1 / 3 * C["VnudLR"][2, 2, 0, 1]
             }
 
 # chromomagnetic operators
-- 
2.43.0


From 3e41253898d5389683e9edc8ad2d659fca266554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:07 +0000
Subject: [PATCH 08/18] fix: keep the s->d nu nu coefficients when translating
 from flavio to Bern

---
 wcxf/translators/wet.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/wcxf/translators/wet.py b/wcxf/translators/wet.py
index 6715694..3771561 100644
--- a/wcxf/translators/wet.py
+++ b/wcxf/translators/wet.py
@@ -634,7 +634,7 @@ def Fierz_to_Flavio_lep(C, ddll, parameters, include_charged=True):
     return {k: prefactor * v for k,v in dic.items()}
 
 
-def Flavio_to_Fierz_lep(C, ddll, parameters):
+def Flavio_to_Fierz_lep(C, ddll, parameters, include_charged=True):
     """From  Flavio semileptonic basis to semileptonic Fierz basis for Class V.
     C should be the corresponding leptonic Fierz basis and
     `ddll` should be of the form 'sbl_enu_tau', 'dbl_munu_e' etc."""
@@ -654,19 +654,26 @@ def Flavio_to_Fierz_lep(C, ddll, parameters):
     e = sqrt(4* pi * parameters['alpha_e'])
     mb = parameters['m_b']
     dic = {
-        'F' + ind + '9': C["C9_" + indfl] / ((16 * pi**2) / e**2),
-        'F' + ind + '9p': C["C9p_" + indfl] / ((16 * pi**2) / e**2),
-        'F' + ind + '10': C["C10_" + indfl] / ((16 * pi**2) / e**2),
-        'F' + ind + '10p': C["C10p_" + indfl] / ((16 * pi**2) / e**2),
-        'F' + ind + 'S': C["CS_" + indfl] / ((16 * pi**2) / e**2 / mb),
-        'F' + ind + 'Sp': C["CSp_" + indfl] / ((16 * pi**2) / e**2 / mb),
-        'F' + ind + 'P': C["CP_" + indfl] / ((16 * pi**2) / e**2 / mb),
-        'F' + ind + 'Pp': C["CPp_" + indfl] / ((16 * pi**2) / e**2 / mb),
         'F' + ind + 'nu': C["CL_" + indnu] / ((8 * pi**2) / e**2),
         'F' + ind + 'nup': C["CR_" + indnu] / ((8 * pi**2) / e**2),
         'F' + ind + 'T': 0,  # tensors not implemented in flavio basis yet
         'F' + ind + 'T5': 0,  # tensors not implemented in flavio basis yet
         }
+    if include_charged:
+        dic.update({
+            'F' + ind + '9': C["C9_" + indfl] / ((16 * pi**2) / e**2),
+            'F' + ind + '9p': C["C9p_" + indfl] / ((16 * pi**2) / e**2),
+            'F' + ind + '10': C["C10_" + indfl] / ((16 * pi**2) / e**2),
+            'F' + ind + '10p': C["C10p_" + indfl] / ((16 * pi**2) / e**2),
+            'F' + ind + 'S': C["CS_" + indfl] / ((16 * pi**2) / e**2 / mb),
+            'F' + ind + 'Sp': C["CSp_" + indfl] / ((16 * pi**2) / e**2 / mb),
+            'F' + ind + 'P': C["CP_" + indfl] / ((16 * pi**2) / e**2 / mb),
+            'F' + ind + 'Pp': C["CPp_" + indfl] / ((16 * pi**2) / e**2 / mb),
+        })
+    else:
+        # charged leptons not implemented in flavio basis for these flavours
+        for k in ['9', '9p', '10', '10p', 'S', 'Sp', 'P', 'Pp']:
+            dic['F' + ind + k] = 0
     prefactor = sqrt(2)/p['GF']/xi/4
     return {k: v / prefactor for k, v in dic.items()}
 
@@ -1164,6 +1171,10 @@ def flavio_to_Bern(C_incomplete, scale, parameters=None):
             d.update(Fierz_to_Bern_lep(Flavio_to_Fierz_lep(C,
                                         'db'+'l_'+l+'nu_'+lp, p),
                                         'db'+'l_'+l+'nu_'+lp))
+            d.update(Fierz_to_Bern_lep(Flavio_to_Fierz_lep(C,
+                                        'ds'+'l_'+l+'nu_'+lp, p,
+                                        include_charged=False),
+                                        'ds'+'l_'+l+'nu_'+lp))
 
     # Class V chromomagnetic
     d.update(Fierz_to_Bern_chrom(Flavio_to_Fierz_chrom(C, 'sb', p), 'sb', p))
-- 
2.43.0


From 7ce29f6f289df4050439a92c06ee345afbb7b1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:29 +0000
Subject: [PATCH 09/18] fix: report failures of the command line interface in
 its exit status

---
 wcxf/cli.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/wcxf/cli.py b/wcxf/cli.py
index 6c35d27..2cf1d8a 100755
--- a/wcxf/cli.py
+++ b/wcxf/cli.py
@@ -75,18 +75,21 @@ def wcxf_cli():
     parser_validate.set_defaults(func=validate)
 
     args = parser.parse_args()
-    try:
-        args.func(args)
-    except AttributeError:
+    if not hasattr(args, 'func'):
         parser.print_help()
+        return 0
+    return args.func(args)
 
 
 def convert(args):
     from wcxf.converters.yamljson import convert_json, convert_yaml
     if args.FORMAT.lower() == 'json':
-        convert_json(args.FILE, args.output)
-    if args.FORMAT.lower() == 'yaml':
-        convert_yaml(args.FILE, args.output)
+        return convert_json(args.FILE, args.output)
+    elif args.FORMAT.lower() == 'yaml':
+        return convert_yaml(args.FILE, args.output)
+    else:
+        logging.error("FORMAT should be 'yaml' or 'json'")
+        return 1
 
 
 def translate(args):
-- 
2.43.0


From 7c2cf58d12f3d14818ecd0e4002a1d0a241b81d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:29 +0000
Subject: [PATCH 10/18] fix: an EFT without any registered bases has no known
 bases instead of raising

---
 wcxf/classes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index dcd0de3..dbebc2f 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -203,12 +203,14 @@ class EFT(WCxf, NamedInstanceClass):
     @property
     def known_bases(self):
         """Return a list of known bases for this EFT."""
-        return tuple(basis[1] for basis in Basis.instances if basis[0] == self.eft)
+        return tuple(basis[1] for basis in getattr(Basis, 'instances', {})
+                     if basis[0] == self.eft)
 
     @property
     def known_translators(self):
         """Return a list of known translators between bases of this EFT."""
-        return tuple(t for t in Translator.instances if t[0] == self.eft)
+        return tuple(t for t in getattr(Translator, 'instances', {})
+                     if t[0] == self.eft)
 
 
 class Basis(WCxf, NamedInstanceClass):
-- 
2.43.0


From 6e9121a158fa3daf7a522e741cd8ce7d9086aa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:29 +0000
Subject: [PATCH 11/18] fix: LaTeX check without log file or without latex
 executable

---
 wcxf/classes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index dbebc2f..f38c267 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -72,7 +72,9 @@ def _testtex(s, delete=True):
                             '-output-directory', tmpd, tmpf],
                            stdout=subprocess.DEVNULL)
     except FileNotFoundError:
-        logging.warn('latex executable not found. Cannot check tex code')
+        logging.warning('latex executable not found. Cannot check tex code')
+        if delete:
+            shutil.rmtree(tmpd)
         return {'success': True}
     if p.returncode == 0:
         res = {'success': True}
@@ -80,6 +82,7 @@ def _testtex(s, delete=True):
         res = {'success': False}
     logf = os.path.join(tmpd, 'textest.log')
     res['log'] = ''
+    logl = []
     try:
         with open(logf, 'r') as f:
             logl = f.readlines()
-- 
2.43.0


From ab9701def338ed81e4ee1cceb24f3063e1142366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:29 +0000
Subject: [PATCH 12/18] fix: treat coefficients missing in the WCxf file as
 zero in the SMEFTsim card

---
 wcxf/converters/smeftsim.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wcxf/converters/smeftsim.py b/wcxf/converters/smeftsim.py
index e939bd3..99fef09 100644
--- a/wcxf/converters/smeftsim.py
+++ b/wcxf/converters/smeftsim.py
@@ -1,7 +1,8 @@
 """Functions to convert WCxf files to MadGraph param_cards for SMEFTsim."""
 
 from numpy import angle
-from collections import OrderedDict
+from collections import OrderedDict, defaultdict
+from types import SimpleNamespace
 from wcxf.converters.SMEFTsim_param_card_elements import *
 
 
@@ -90,6 +91,9 @@ def initialize_smeftsim_card(model_set):
 
 def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_value):
 
+  # coefficients missing in the WCxf file are zero
+  wc = SimpleNamespace(dict=defaultdict(float, wc.dict))
+
   if model_set == 'A':
       # set block entries to WC values
       card['Block']['FRBlock'] = {'values': [
-- 
2.43.0


From 902560df3634c016b45ce426c4c627cb027839d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:51 +0000
Subject: [PATCH 13/18] fix: do not register a child basis whose parent is
 missing

---
 wcxf/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index f38c267..7f96295 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -222,7 +222,6 @@ class Basis(WCxf, NamedInstanceClass):
         """Instantiate the basis file object."""
         self.eft = eft
         self.basis = basis
-        super().__init__((eft, basis))
         for k, v in kwargs.items():
             setattr(self, k, v)
         if hasattr(self, 'parent'):
@@ -235,6 +234,8 @@ class Basis(WCxf, NamedInstanceClass):
         else:
             self.sectors = sectors
         self._all_wcs = None
+        # register only once the basis is complete
+        super().__init__((eft, basis))
 
     @property
     def known_translators(self):
-- 
2.43.0


From 91bec7d7d6421e1838f314ba7a6814b288e277f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:52 +0000
Subject: [PATCH 14/18] fix: cached results must not bypass the check of the
 number of flavours

The caches compared arguments by value only, so a call like alpha_s(5.5, 5.0)
raised ValueError in a fresh process but returned a value after
alpha_s(5.5, 5) had been called.
---
 wcxf/util/qcd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wcxf/util/qcd.py b/wcxf/util/qcd.py
index a6afd10..00af0a2 100644
--- a/wcxf/util/qcd.py
+++ b/wcxf/util/qcd.py
@@ -13,7 +13,7 @@ def _sane(scale, f):
 MZ = 91.1876
 
 
-@lru_cache(32)
+@lru_cache(32, typed=True)
 def alpha_s(scale, f, alphasMZ=0.1185):
     """3-loop cumputation of alpha_s for f flavours
     with initial condition alpha_s(MZ) = 0.1185"""
@@ -48,7 +48,7 @@ def alpha_s(scale, f, alphasMZ=0.1185):
         raise ValueError("Invalid input: f={}, scale={}".format(f, scale))
 
 
-@lru_cache(32)
+@lru_cache(32, typed=True)
 def m_b(mbmb, scale, f, alphasMZ=0.1185):
     r"""Get running b quark mass in the MSbar scheme at the scale `scale`
     in the theory with `f` dynamical quark flavours starting from $m_b(m_b)$"""
@@ -86,7 +86,7 @@ def m_b(mbmb, scale, f, alphasMZ=0.1185):
         raise ValueError("Invalid input: f={}, scale={}".format(f, scale))
 
 
-@lru_cache(32)
+@lru_cache(32, typed=True)
 def m_c(mcmc, scale, f, alphasMZ=0.1185):
     r"""Get running c quark mass in the MSbar scheme at the scale `scale`
     in the theory with `f` dynamical quark flavours starting from $m_c(m_c)$"""
@@ -113,7 +113,7 @@ def m_c(mcmc, scale, f, alphasMZ=0.1185):
         raise ValueError("Invalid input: f={}, scale={}".format(f, scale))
 
 
-@lru_cache(32)
+@lru_cache(32, typed=True)
 def m_s(ms2, scale, f, alphasMZ=0.1185):
     r"""Get running s quark mass in the MSbar scheme at the scale `scale`
     in the theory with `f` dynamical quark flavours starting from $m_s(2 \,\text{GeV})$"""
-- 
2.43.0


From 02e672f130a7240eaf6f0b13d202e512eeca64c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:33 +0000
Subject: [PATCH 15/18] fix: keep the sign of real coefficients in the SMEFTsim
 card

The flavour-diagonal phil1, phil3, phie, phiq1, phiq3, phiu, phid coefficients
and ee_3333 are real and have no phase entry in the param_card, but their
absolute values were written, so that negative coefficients changed sign.
---
 wcxf/converters/smeftsim.py | 86 ++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 43 deletions(-)

diff --git a/wcxf/converters/smeftsim.py b/wcxf/converters/smeftsim.py
index 99fef09..b58f69c 100644
--- a/wcxf/converters/smeftsim.py
+++ b/wcxf/converters/smeftsim.py
@@ -743,48 +743,48 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
 	  [644, format(wc.dict['phiBtilde'] * lambda_smeft_value**2,'.6e'), '# cHBtil'],
 	  [645, format(wc.dict['phiWB'] * lambda_smeft_value**2,'.6e'), '# cHWB'],
 	  [646, format(wc.dict['phiWtildeB'] * lambda_smeft_value**2,'.6e'), '# cHWBtil'],
-	  [647, format(abs(wc.dict['phil1_11']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs11'],
+	  [647, format(wc.dict['phil1_11'] * lambda_smeft_value**2,'.6e'), '# cHl1Abs11'],
 	  [648, format(abs(wc.dict['phil1_12']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs12'],
 	  [649, format(abs(wc.dict['phil1_13']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs13'],
-	  [650, format(abs(wc.dict['phil1_22']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs22'],
+	  [650, format(wc.dict['phil1_22'] * lambda_smeft_value**2,'.6e'), '# cHl1Abs22'],
 	  [651, format(abs(wc.dict['phil1_23']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs23'],
-	  [652, format(abs(wc.dict['phil1_33']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs33'],
-	  [653, format(abs(wc.dict['phil3_11']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs11'],
+	  [652, format(wc.dict['phil1_33'] * lambda_smeft_value**2,'.6e'), '# cHl1Abs33'],
+	  [653, format(wc.dict['phil3_11'] * lambda_smeft_value**2,'.6e'), '# cHl3Abs11'],
 	  [654, format(abs(wc.dict['phil3_12']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs12'],
 	  [655, format(abs(wc.dict['phil3_13']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs13'],
-	  [656, format(abs(wc.dict['phil3_22']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs22'],
+	  [656, format(wc.dict['phil3_22'] * lambda_smeft_value**2,'.6e'), '# cHl3Abs22'],
 	  [657, format(abs(wc.dict['phil3_23']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs23'],
-	  [658, format(abs(wc.dict['phil3_33']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs33'],
-	  [659, format(abs(wc.dict['phiq1_11']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs11'],
+	  [658, format(wc.dict['phil3_33'] * lambda_smeft_value**2,'.6e'), '# cHl3Abs33'],
+	  [659, format(wc.dict['phiq1_11'] * lambda_smeft_value**2,'.6e'), '# cHq1Abs11'],
 	  [660, format(abs(wc.dict['phiq1_12']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs12'],
 	  [661, format(abs(wc.dict['phiq1_13']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs13'],
-	  [662, format(abs(wc.dict['phiq1_22']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs22'],
+	  [662, format(wc.dict['phiq1_22'] * lambda_smeft_value**2,'.6e'), '# cHq1Abs22'],
 	  [663, format(abs(wc.dict['phiq1_23']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs23'],
-	  [664, format(abs(wc.dict['phiq1_33']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs33'],
-	  [665, format(abs(wc.dict['phiq3_11']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs11'],
+	  [664, format(wc.dict['phiq1_33'] * lambda_smeft_value**2,'.6e'), '# cHq1Abs33'],
+	  [665, format(wc.dict['phiq3_11'] * lambda_smeft_value**2,'.6e'), '# cHq3Abs11'],
 	  [666, format(abs(wc.dict['phiq3_12']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs12'],
 	  [667, format(abs(wc.dict['phiq3_13']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs13'],
-	  [668, format(abs(wc.dict['phiq3_22']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs22'],
+	  [668, format(wc.dict['phiq3_22'] * lambda_smeft_value**2,'.6e'), '# cHq3Abs22'],
 	  [669, format(abs(wc.dict['phiq3_23']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs23'],
-	  [670, format(abs(wc.dict['phiq3_33']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs33'],
-	  [671, format(abs(wc.dict['phie_11']) * lambda_smeft_value**2,'.6e'), '# cHeAbs11'],
+	  [670, format(wc.dict['phiq3_33'] * lambda_smeft_value**2,'.6e'), '# cHq3Abs33'],
+	  [671, format(wc.dict['phie_11'] * lambda_smeft_value**2,'.6e'), '# cHeAbs11'],
 	  [672, format(abs(wc.dict['phie_12']) * lambda_smeft_value**2,'.6e'), '# cHeAbs12'],
 	  [673, format(abs(wc.dict['phie_13']) * lambda_smeft_value**2,'.6e'), '# cHeAbs13'],
-	  [674, format(abs(wc.dict['phie_22']) * lambda_smeft_value**2,'.6e'), '# cHeAbs22'],
+	  [674, format(wc.dict['phie_22'] * lambda_smeft_value**2,'.6e'), '# cHeAbs22'],
 	  [675, format(abs(wc.dict['phie_23']) * lambda_smeft_value**2,'.6e'), '# cHeAbs23'],
-	  [676, format(abs(wc.dict['phie_33']) * lambda_smeft_value**2,'.6e'), '# cHeAbs33'],
-	  [677, format(abs(wc.dict['phiu_11']) * lambda_smeft_value**2,'.6e'), '# cHuAbs11'],
+	  [676, format(wc.dict['phie_33'] * lambda_smeft_value**2,'.6e'), '# cHeAbs33'],
+	  [677, format(wc.dict['phiu_11'] * lambda_smeft_value**2,'.6e'), '# cHuAbs11'],
 	  [678, format(abs(wc.dict['phiu_12']) * lambda_smeft_value**2,'.6e'), '# cHuAbs12'],
 	  [679, format(abs(wc.dict['phiu_13']) * lambda_smeft_value**2,'.6e'), '# cHuAbs13'],
-	  [680, format(abs(wc.dict['phiu_22']) * lambda_smeft_value**2,'.6e'), '# cHuAbs22'],
+	  [680, format(wc.dict['phiu_22'] * lambda_smeft_value**2,'.6e'), '# cHuAbs22'],
 	  [681, format(abs(wc.dict['phiu_23']) * lambda_smeft_value**2,'.6e'), '# cHuAbs23'],
-	  [682, format(abs(wc.dict['phiu_33']) * lambda_smeft_value**2,'.6e'), '# cHuAbs33'],
-	  [683, format(abs(wc.dict['phid_11']) * lambda_smeft_value**2,'.6e'), '# cHdAbs11'],
+	  [682, format(wc.dict['phiu_33'] * lambda_smeft_value**2,'.6e'), '# cHuAbs33'],
+	  [683, format(wc.dict['phid_11'] * lambda_smeft_value**2,'.6e'), '# cHdAbs11'],
 	  [684, format(abs(wc.dict['phid_12']) * lambda_smeft_value**2,'.6e'), '# cHdAbs12'],
 	  [685, format(abs(wc.dict['phid_13']) * lambda_smeft_value**2,'.6e'), '# cHdAbs13'],
-	  [686, format(abs(wc.dict['phid_22']) * lambda_smeft_value**2,'.6e'), '# cHdAbs22'],
+	  [686, format(wc.dict['phid_22'] * lambda_smeft_value**2,'.6e'), '# cHdAbs22'],
 	  [687, format(abs(wc.dict['phid_23']) * lambda_smeft_value**2,'.6e'), '# cHdAbs23'],
-	  [688, format(abs(wc.dict['phid_33']) * lambda_smeft_value**2,'.6e'), '# cHdAbs33'],
+	  [688, format(wc.dict['phid_33'] * lambda_smeft_value**2,'.6e'), '# cHdAbs33'],
 	  [689, format(wc.dict['ll_1111'] * lambda_smeft_value**2,'.6e'), '# cllAbs1111'],
 	  [690, format(wc.dict['ll_1122'] * lambda_smeft_value**2,'.6e'), '# cllAbs1122'],
 	  [691, format(wc.dict['ll_1221'] * lambda_smeft_value**2,'.6e'), '# cllAbs1221'],
@@ -962,7 +962,7 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
           [863, format(wc.dict['ee_2222'] * lambda_smeft_value**2,'.6e'),      '# ceeAbs2222'], 
           [864, format(wc.dict['ee_2233'] * lambda_smeft_value**2,'.6e'),      '# ceeAbs2233'], 
           [865, format(abs(wc.dict['ee_1112']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1112'], 
-          [866, format(abs(wc.dict['ee_3333']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs3333'], 
+          [866, format(wc.dict['ee_3333'] * lambda_smeft_value**2,'.6e'),      '# ceeAbs3333'], 
           [867, format(abs(wc.dict['ee_1123']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1123'], 
           [868, format(abs(wc.dict['ee_1113']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1113'], 
           [869, format(abs(wc.dict['ee_1213']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1213'], 
@@ -2707,66 +2707,66 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
   elif model_set == 'B':
       
       card['Block']['FRBlock'] = {'values': [
-	[1, format(abs(wc.dict['phil1_11']* lambda_smeft_value**2), '.6e') , '# cHl1Abs11'],
+	[1, format(wc.dict['phil1_11']* lambda_smeft_value**2, '.6e') , '# cHl1Abs11'],
 	[2, format(abs(wc.dict['phil1_12']* lambda_smeft_value**2), '.6e') , '# cHl1Abs12'],
 	[3, format(abs(wc.dict['phil1_13']* lambda_smeft_value**2), '.6e') , '# cHl1Abs13'],
-	[4, format(abs(wc.dict['phil1_22']* lambda_smeft_value**2), '.6e') , '# cHl1Abs22'],
+	[4, format(wc.dict['phil1_22']* lambda_smeft_value**2, '.6e') , '# cHl1Abs22'],
 	[5, format(abs(wc.dict['phil1_23']* lambda_smeft_value**2), '.6e') , '# cHl1Abs23'],
-	[6, format(abs(wc.dict['phil1_33']* lambda_smeft_value**2), '.6e') , '# cHl1Abs33'],
+	[6, format(wc.dict['phil1_33']* lambda_smeft_value**2, '.6e') , '# cHl1Abs33'],
 	[7, format(angle(wc.dict['phil1_12']), '.6e') , '# cHl1Ph12'],
 	[8, format(angle(wc.dict['phil1_13']), '.6e') , '# cHl1Ph13'],
 	[9, format(angle(wc.dict['phil1_23']), '.6e') , '# cHl1Ph23'],
-	[10, format(abs(wc.dict['phil3_11']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs11'], 
+	[10, format(wc.dict['phil3_11']* lambda_smeft_value**2, '.6e') ,'# cHL3Abs11'], 
 	[11, format(abs(wc.dict['phil3_12']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs12'], 
 	[12, format(abs(wc.dict['phil3_13']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs13'], 
-	[13, format(abs(wc.dict['phil3_22']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs22'], 
+	[13, format(wc.dict['phil3_22']* lambda_smeft_value**2, '.6e') ,'# cHL3Abs22'], 
 	[14, format(abs(wc.dict['phil3_23']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs23'], 
-	[15, format(abs(wc.dict['phil3_33']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs33'], 
+	[15, format(wc.dict['phil3_33']* lambda_smeft_value**2, '.6e') ,'# cHL3Abs33'], 
 	[16, format(angle(wc.dict['phil3_12']), '.6e') ,'# cHL3Ph12'], 
 	[17, format(angle(wc.dict['phil3_13']), '.6e') ,'# cHL3Ph13'], 
 	[18, format(angle(wc.dict['phil3_23']), '.6e') ,'# cHL3Ph23'], 
-	[19, format(abs(wc.dict['phiq1_11']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs11'], 
+	[19, format(wc.dict['phiq1_11']* lambda_smeft_value**2, '.6e') ,'# cHq1Abs11'], 
 	[20, format(abs(wc.dict['phiq1_12']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs12'], 
 	[21, format(abs(wc.dict['phiq1_13']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs13'], 
-	[22, format(abs(wc.dict['phiq1_22']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs22'], 
+	[22, format(wc.dict['phiq1_22']* lambda_smeft_value**2, '.6e') ,'# cHq1Abs22'], 
 	[23, format(abs(wc.dict['phiq1_23']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs23'], 
-	[24, format(abs(wc.dict['phiq1_33']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs33'], 
+	[24, format(wc.dict['phiq1_33']* lambda_smeft_value**2, '.6e') ,'# cHq1Abs33'], 
 	[25, format(angle(wc.dict['phiq1_12']), '.6e') ,'# cHq1Ph12'], 
 	[26, format(angle(wc.dict['phiq1_13']), '.6e') ,'# cHq1Ph13'], 
 	[27, format(angle(wc.dict['phiq1_23']), '.6e') ,'# cHq1Ph23'], 
-	[28, format(abs(wc.dict['phiq3_11']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs11'], 
+	[28, format(wc.dict['phiq3_11']* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs11'], 
 	[29, format(abs(wc.dict['phiq3_12']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs12'], 
 	[30, format(abs(wc.dict['phiq3_13']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs13'], 
-	[31, format(abs(wc.dict['phiq3_22']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs22'], 
+	[31, format(wc.dict['phiq3_22']* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs22'], 
 	[32, format(abs(wc.dict['phiq3_23']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs23'], 
-	[33, format(abs(wc.dict['phiq3_33']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs33'], 
+	[33, format(wc.dict['phiq3_33']* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs33'], 
 	[34, format(angle(wc.dict['phiq3_12']), '.6e') ,'# cHQ3Ph12'], 
 	[35, format(angle(wc.dict['phiq3_13']), '.6e') ,'# cHQ3Ph13'], 
 	[36, format(angle(wc.dict['phiq3_23']), '.6e') ,'# cHQ3Ph23'], 
-	[37, format(abs(wc.dict['phiu_11']* lambda_smeft_value**2), '.6e') ,'# cHuAbs11'], 
+	[37, format(wc.dict['phiu_11']* lambda_smeft_value**2, '.6e') ,'# cHuAbs11'], 
 	[38, format(abs(wc.dict['phiu_12']* lambda_smeft_value**2), '.6e') ,'# cHuAbs12'], 
 	[39, format(abs(wc.dict['phiu_13']* lambda_smeft_value**2), '.6e') ,'# cHuAbs13'], 
-	[40, format(abs(wc.dict['phiu_22']* lambda_smeft_value**2), '.6e') ,'# cHuAbs22'], 
+	[40, format(wc.dict['phiu_22']* lambda_smeft_value**2, '.6e') ,'# cHuAbs22'], 
 	[41, format(abs(wc.dict['phiu_23']* lambda_smeft_value**2), '.6e') ,'# cHuAbs23'], 
-	[42, format(abs(wc.dict['phiu_33']* lambda_smeft_value**2), '.6e') ,'# cHuAbs33'], 
+	[42, format(wc.dict['phiu_33']* lambda_smeft_value**2, '.6e') ,'# cHuAbs33'], 
 	[43, format(angle(wc.dict['phiu_12']), '.6e') ,'# cHuPh12'], 
 	[44, format(angle(wc.dict['phiu_13']), '.6e') ,'# cHuPh13'], 
 	[45, format(angle(wc.dict['phiu_23']), '.6e') ,'# cHuPh23'], 
-	[46, format(abs(wc.dict['phid_11']* lambda_smeft_value**2), '.6e') ,'# cHdAbs11'], 
+	[46, format(wc.dict['phid_11']* lambda_smeft_value**2, '.6e') ,'# cHdAbs11'], 
 	[47, format(abs(wc.dict['phid_12']* lambda_smeft_value**2), '.6e') ,'# cHdAbs12'], 
 	[48, format(abs(wc.dict['phid_13']* lambda_smeft_value**2), '.6e') ,'# cHdAbs13'], 
-	[49, format(abs(wc.dict['phid_22']* lambda_smeft_value**2), '.6e') ,'# cHdAbs22'], 
+	[49, format(wc.dict['phid_22']* lambda_smeft_value**2, '.6e') ,'# cHdAbs22'], 
 	[50, format(abs(wc.dict['phid_23']* lambda_smeft_value**2), '.6e') ,'# cHdAbs23'], 
-	[51, format(abs(wc.dict['phid_33']* lambda_smeft_value**2), '.6e') ,'# cHdAbs33'], 
+	[51, format(wc.dict['phid_33']* lambda_smeft_value**2, '.6e') ,'# cHdAbs33'], 
 	[52, format(angle(wc.dict['phid_12']), '.6e') ,'# cHdPh12'], 
 	[53, format(angle(wc.dict['phid_13']), '.6e') ,'# cHdPh13'], 
 	[54, format(angle(wc.dict['phid_23']), '.6e') ,'# cHdPh23'], 
-	[55, format(abs(wc.dict['phie_11']* lambda_smeft_value**2), '.6e') ,'# cHeAbs11'], 
+	[55, format(wc.dict['phie_11']* lambda_smeft_value**2, '.6e') ,'# cHeAbs11'], 
 	[56, format(abs(wc.dict['phie_12']* lambda_smeft_value**2), '.6e') ,'# cHeAbs12'], 
 	[57, format(abs(wc.dict['phie_13']* lambda_smeft_value**2), '.6e') ,'# cHeAbs13'], 
-	[58, format(abs(wc.dict['phie_22']* lambda_smeft_value**2), '.6e') ,'# cHeAbs22'], 
+	[58, format(wc.dict['phie_22']* lambda_smeft_value**2, '.6e') ,'# cHeAbs22'], 
 	[59, format(abs(wc.dict['phie_23']* lambda_smeft_value**2), '.6e') ,'# cHeAbs23'], 
-	[60, format(abs(wc.dict['phie_33']* lambda_smeft_value**2), '.6e') ,'# cHeAbs33'], 
+	[60, format(wc.dict['phie_33']* lambda_smeft_value**2, '.6e') ,'# cHeAbs33'], 
 	[61, format(angle(wc.dict['phie_12']), '.6e') ,'# cHePh12'], 
 	[62, format(angle(wc.dict['phie_13']), '.6e') ,'# cHePh13'], 
 	[63, format(angle(wc.dict['phie_23']), '.6e') ,'# cHePh23'], 
-- 
2.43.0


From 703c4f0db71064e0904994905e77afd3d97cac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:33 +0000
Subject: [PATCH 16/18] fix: SMEFTsim card with real coefficients given in
 Re/Im notation

A real coefficient given as {Re: ..., Im: 0} was written to the param_card as a
Python complex number, which is not valid in the LHA format.
---
 wcxf/converters/smeftsim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wcxf/converters/smeftsim.py b/wcxf/converters/smeftsim.py
index b58f69c..88073f9 100644
--- a/wcxf/converters/smeftsim.py
+++ b/wcxf/converters/smeftsim.py
@@ -91,8 +91,10 @@ def initialize_smeftsim_card(model_set):
 
 def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_value):
 
-  # coefficients missing in the WCxf file are zero
-  wc = SimpleNamespace(dict=defaultdict(float, wc.dict))
+  # coefficients missing in the WCxf file are zero; real values can also be
+  # given in Re/Im notation
+  wc = SimpleNamespace(dict=defaultdict(float, {
+      k: v if v.imag else v.real for k, v in wc.dict.items()}))
 
   if model_set == 'A':
       # set block entries to WC values
-- 
2.43.0


From 3f34b6658c7ae9f14869d73e26b802263709cc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:09 +0000
Subject: [PATCH 17/18] fix: printing a basis with an empty coefficient
 definition

Basis.validate and the translators accept coefficients without a definition
(null in the file), but str(basis) raised a TypeError for them.
---
 wcxf/classes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 7f96295..77abffc 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -308,6 +308,7 @@ class Basis(WCxf, NamedInstanceClass):
                 # fractions of line width (default: 72)
                 md += "|" + 18 * "-" + "|" + 48 * "-" + "|" + 6 * "-" + "|\n"
                 for name, d in wcs.items():
+                    d = d or {}  # the definition can be empty (null)
                     if 'real' not in d or not d['real']:
                         t = 'C'
                     else:
-- 
2.43.0


From 02caed4824ed57fc1d68bcbd8ba4379afb03a968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:25 +0000
Subject: [PATCH 18/18] fix: validation of bases with coefficients without
 LaTeX

---
 wcxf/classes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 77abffc..10feea7 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -271,10 +271,10 @@ class Basis(WCxf, NamedInstanceClass):
                              " {}".format(dupes))
         # check for LaTeX errors
         # string with all tex values
-        alltex = '${}$'.format('$, $'.join([d.get('tex', '')
-                                            for c in self.sectors.values()
-                                            for d in c.values()
-                                            if d is not None]))
+        alltex = ', '.join(['${}$'.format(d['tex'])
+                            for c in self.sectors.values()
+                            for d in c.values()
+                            if d is not None and d.get('tex')])
         res = _testtex(alltex)
         if not res['success']:
             raise ValueError("Validation of basis {}/{}: "
-- 
2.43.0

