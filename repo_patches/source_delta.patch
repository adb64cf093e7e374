From 58ae859fcf88c1a1d841caf9605aaa3db4d96e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:47 +0000
Subject: [PATCH 01/57] fix: iterate sampled columns with DataFrame.items
 (iteritems was removed in pandas 2)

---
 ASAPy/XsecSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 46d90d2..91bf33f 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -732,7 +732,7 @@ def write_sampled_data(h, ace_file, zaid, mts, sample_dfs_rel, output_formatter=
     # sample_df contains relative values (sampled / mean) which are then multiplied by the actual continuous xsec and written to an ace file
 
     # iter over # of samples, each processor does 1 whole ace file no matter how many mts were sampled
-    for sample_number, _ in sample_dfs_rel[0].iteritems():
+    for sample_number, _ in sample_dfs_rel[0].items():
         if sample_number % size != rank: continue
 
         # load the base ace file to get a fresh copy
-- 
2.43.0


From e54d9c735a9dbc42c51ede500e8cd7928ce083ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:46 +0000
Subject: [PATCH 02/57] fix: points with zero cross section stay zero in
 sampled tables

They were written as the sampled factor itself (about 1 barn), below reaction
thresholds too.
---
 ASAPy/XsecSampler.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 91bf33f..0267f5d 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -754,9 +754,6 @@ def write_sampled_data(h, ace_file, zaid, mts, sample_dfs_rel, output_formatter=
                     sampled_xsec.append(map_groups_to_continuous(e_to_map_on, xsec['e high'], col,
                                                                  min_e=xsec['e low'].min()) * pdf_for_e_out)
             else:
-                # in case we get a 0 mean set it to 1.0. The sample_df sets rel_dev
-                original_sigma[original_sigma == 0] = 1
-
                 sampled_xsec = map_groups_to_continuous(e, xsec['e high'], col,min_e=xsec['e low'].min()) * original_sigma
 
             ae.set_sigma(mt, sampled_xsec)
-- 
2.43.0


From 46e0b446dfdf66c749a49f609ddd6a47a263c31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:46 +0000
Subject: [PATCH 03/57] fix: groups with zero mean are not sampled and get a
 factor of one

With any distribution but lognormal they were drawn around zero, so that half of
all samples were discarded as negative and the rest had an infinite factor; with
lognormal the factor was zero.
---
 ASAPy/CovManipulation.py | 15 +++++++--------
 ASAPy/XsecSampler.py     |  2 +-
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index 5c3a794..971e688 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -306,14 +306,13 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         vars_to_not_sample_idx = list(set_fix_val_idx)
 
     if min(mean_values) == 0:
-        # cannot sample 0 mean with lognormal
-        if distro == 'lognormal':
-            set_zero_mean_idx = mean_values == 0
-
-            if vars_to_not_sample_idx is not None:
-                vars_to_not_sample_idx = [i + j for i,j in zip(vars_to_not_sample_idx, set_zero_mean_idx)]
-            else:
-                vars_to_not_sample_idx = set_zero_mean_idx
+        # cannot sample 0 mean, a relative value does not exist for it
+        set_zero_mean_idx = mean_values == 0
+
+        if vars_to_not_sample_idx is not None:
+            vars_to_not_sample_idx = [i + j for i,j in zip(vars_to_not_sample_idx, set_zero_mean_idx)]
+        else:
+            vars_to_not_sample_idx = set_zero_mean_idx
 
     if np.any(np.diag(desired_corr) == 0):
         set_zero_corr_to_zero = np.diag(desired_corr) == 0
diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 0267f5d..5c406e9 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -382,7 +382,7 @@ def sample_xsec(cov_hdf_store, mt, zaid, num_samples, sample_type='lognormal', r
 
     # if a NaN is found at this point, it's because the sample_df (rel) calc divided by 0 mean,
     # set the rel dev to the value sampled + 1.0. Later we can check if mean = 0 and if it is just use rel dev
-    sample_df[sample_df.isna()] = sample_df_full_vals[sample_df.isna()]
+    sample_df[sample_df.isna()] = sample_df_full_vals[sample_df.isna()] + 1.0
 
     return sample_df, sample_df_full_vals
 
-- 
2.43.0


From 299936c04eb6b69a44d38b499d9cedb30fe08d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:46 +0000
Subject: [PATCH 04/57] fix: do not sample groups without correlation data when
 nothing else is left out

---
 ASAPy/CovManipulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index 971e688..c26c1f9 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -318,6 +318,8 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         set_zero_corr_to_zero = np.diag(desired_corr) == 0
         if vars_to_not_sample_idx is not None:
             vars_to_not_sample_idx = [i + j for i, j in zip(vars_to_not_sample_idx, set_zero_corr_to_zero)]
+        else:
+            vars_to_not_sample_idx = set_zero_corr_to_zero
 
     # only sample from things that are deemed samplable
     if vars_to_not_sample_idx is not None:
-- 
2.43.0


From c05da6b5e928563e56b71a3932557195faad9df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:46 +0000
Subject: [PATCH 05/57] fix: undo the pivoting of gmw_cholesky when correlating
 samples

The factor of the pivoted matrix was used as is, which gave the correlations to
the wrong groups.
---
 ASAPy/CovManipulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index c26c1f9..1877dbd 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -365,7 +365,7 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         C = sp.linalg.cholesky(desired_corr)
     except np.linalg.LinAlgError:
         P, L, e = gmw_cholesky(desired_corr)
-        C = L.T
+        C = np.dot(P, L).T
 
     M = col_independent_matrix(num_samples, num_vars)
     D = (1. / num_samples) * np.dot(M.T, M)
@@ -374,7 +374,7 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         E = sp.linalg.cholesky(D)
     except np.linalg.LinAlgError:
         P, L, e = gmw_cholesky(D)
-        E = L.T
+        E = np.dot(P, L).T
 
     N = np.dot(np.dot(M, np.linalg.inv(E)), C)
     R = rank(N)
-- 
2.43.0


From 495ccc34e6469d580c6ee45ad44f89d8740ec70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:46 +0000
Subject: [PATCH 06/57] fix: uniform samples have the requested mean and
 standard deviation

They were drawn from [mean, mean + std_dev], above the mean always.
---
 ASAPy/CovManipulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index 1877dbd..e10fc9e 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -397,6 +397,9 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         distro_to_sample_from = sci_norm
 
     elif distro == 'uniform':
+        # centred on the mean with the given standard deviation (scipy: loc = lower bound, scale = width)
+        mean_values = mean_values - 3 ** 0.5 * std_dev
+        std_dev = 2 * 3 ** 0.5 * std_dev
         distro_to_sample_from = uniform
 
     else:
-- 
2.43.0


From d2491073e2512ffd92e695b0dd5dd1481db1ebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:46 +0000
Subject: [PATCH 07/57] fix: a temperature that is on the ACE file can be asked
 for

---
 ASAPy/AceIO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 28a971a..5d28678 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -38,7 +38,7 @@ class AceEditor:
                 # try to see if the user left off "K"
                 temperature += 'K'
 
-            if temperature not in list(temperature):
+            if temperature not in temperatures:
                 raise Exception("Could not find temperature {0} in ace file".format(temperature))
 
         self.temperature = temperature
-- 
2.43.0


From 51fba456da0f6e7d6498338b6ab85d5e1a33a3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:49 +0000
Subject: [PATCH 08/57] fix: num_oversamples makes that many samples and keeps
 num_samples of them

The option was accepted and ignored.
---
 ASAPy/XsecSampler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 5c406e9..314650a 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -362,19 +362,21 @@ def sample_xsec(cov_hdf_store, mt, zaid, num_samples, sample_type='lognormal', r
     """
 
     if not num_samples_to_make:
-        # todo actually use this..
         num_samples_to_make = num_samples
 
     # ensure type
     num_samples = int(num_samples)
+    num_samples_to_make = int(num_samples_to_make)
 
     h = cov_hdf_store
 
     # sample data, keep the relative and full values sampled for plotting later
     xsec = XsecSampler(h, zaid, mt)
 
-    sample_df_full_vals = xsec.sample(sample_type, num_samples, return_relative=False, remove_neg=remove_neg,
+    sample_df_full_vals = xsec.sample(sample_type, num_samples_to_make, return_relative=False, remove_neg=remove_neg,
                                       raise_on_bad_sample=raise_on_bad_sample, mt=mt)
+    # samples are numbered from 0, only keep what was asked for
+    sample_df_full_vals = sample_df_full_vals.iloc[:, :num_samples]
     mean = xsec.std_dev_df['x-sec(1)'].values
     # get the full values by multiplying in the mean by having the internal sample checker "normalize" the values to the 1/mean
 
-- 
2.43.0


From 155b59a9c4fe470634d15a3d9121c64d654b3fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:49 +0000
Subject: [PATCH 09/57] fix: write the samples every MT has when negative
 samples were removed

With fewer samples left for a later MT than for the first one, writing stopped
half way with a KeyError.
---
 ASAPy/XsecSampler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 314650a..1ed9447 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -731,6 +731,10 @@ def write_sampled_data(h, ace_file, zaid, mts, sample_dfs_rel, output_formatter=
     :return:
     """
 
+    # removing negative samples may leave fewer of them for some mts, a file needs one of each mt
+    num_samples = min(sample_df_rel.shape[1] for sample_df_rel in sample_dfs_rel)
+    sample_dfs_rel = [sample_df_rel.iloc[:, :num_samples].copy() for sample_df_rel in sample_dfs_rel]
+
     # sample_df contains relative values (sampled / mean) which are then multiplied by the actual continuous xsec and written to an ace file
 
     # iter over # of samples, each processor does 1 whole ace file no matter how many mts were sampled
-- 
2.43.0


From b913001220b1725b0928187b060b617cb5f99b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:49 +0000
Subject: [PATCH 10/57] fix: only sample MTs the store has for the nuclide of
 the ACE file

MTs of the other nuclides in the store were taken too, which ended in a KeyError.
---
 ASAPy/XsecSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 1ed9447..dada806 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -900,7 +900,7 @@ if __name__ == "__main__":
         else:
             # read cov store keys for mts (/ZAID/MT/ZAID/MT)
             with pd.HDFStore(os.path.expanduser(store_name), 'r') as h:
-                mts = {int(i.split('/')[2]) for i in h}
+                mts = {int(i.split('/')[2]) for i in h if i.split('/')[1] == zaid}
                 mts = sorted(list(mts))
 
         # remove mt's not in the ACE file and print to the user (todo: log)
-- 
2.43.0


From 48f6d600379cb39a02f12da8f7021fe634638c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:49 +0000
Subject: [PATCH 11/57] fix: map an energy equal to the lowest bound to the
 lowest group

It was a KeyError.
---
 ASAPy/XsecSampler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index dada806..87e66c6 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -298,6 +298,8 @@ def map_groups_to_continuous(e_sigma, high_e_bins, multi_group_val, max_e=None,
     # this makes it easier to index indo multi_group_val
     group_nums[bins_too_low] = num_groups
     group_nums[bins_too_high] = 1
+    # an energy equal to min_e is in the lowest energy group
+    group_nums[group_nums > num_groups] = num_groups
 
     std_dev_mapped_to_e_groups = multi_group_val[group_nums].values
 
-- 
2.43.0


From 5deb955223754f1b246a7cec18e8101bdae446c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:12 +0000
Subject: [PATCH 12/57] fix: a single sample can be drawn

The scores of one sample have no spread, dividing by it gave NaN and a ValueError.
---
 ASAPy/CovManipulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index e10fc9e..65c79d3 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -23,7 +23,9 @@ def col_independent_matrix(n, d):
     """
     x = np.arange(1, (n+1))
     p = sp.stats.norm.ppf(x/(n+1))
-    p = (p - p.mean()) / p.std()
+    p = p - p.mean()
+    if n > 1:
+        p = p / p.std()
     score = np.zeros((n, d))
     for j in range(0, score.shape[1]):
         score[:, j] = np.random.permutation(p)
-- 
2.43.0


From 30ef8bd0d23ed2612ef298f2548b626db7193392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:12 +0000
Subject: [PATCH 13/57] fix: sums follow reactions whose own partial sum is not
 on the ACE file

The total did not change with an inelastic level if MT 4 was not on the file, and
MT 101 did not change with MTs 103-107 if their levels were not, so the sampled
table was inconsistent with itself.
---
 ASAPy/AceIO.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 5d28678..a4e85e7 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -320,11 +320,11 @@ class AceEditor:
         ----------
         @trkov2012endf : ENDF6 format manual
 
-        Questions
-        ---------
-        if a summed MT is not present, but some of it's constiuents are, and that summed mt that is not present
-        is present in another MT sum, should the not present MTs constituents be included in the sum?
-        --I think so: if we don't have MT18 but have 19, it should still be in the total xsec
+        Notes
+        -----
+        If a summed MT is not present, but some of it's constiuents are, and that summed mt that is not present
+        is present in another MT sum, the not present MTs constituents are included in the sum: if we don't have MT18
+        but have 19, it should still be in the total xsec
         """
 
         # the sum rules
@@ -336,10 +336,10 @@ class AceEditor:
         mt_105 = list(range(700, 750))
         mt_106 = list(range(750, 800))
         mt_107 = list(range(800, 850))
-        mt_101 = [102, *mt_103, *mt_104, *mt_105, *mt_106, *mt_107, 108, 109, 111, 112, 113, 114, 115, 116, 117, 155,
-                  182, 191, 192, 193, 197]
+        mt_101 = [102, 103, 104, 105, 106, 107, 108, 109, 111, 112, 113, 114, 115, 116, 117, 155,
+                  182, 191, 192, 193, 197]  # has 103-107 which are sums themselves
         mt_18 = [19, 20, 21, 38]
-        mt_27 = [*mt_18, *mt_101]  # has 18 and 101 which are sums themselves
+        mt_27 = [18, 101]  # has 18 and 101 which are sums themselves
 
         mt_16 = list(range(875, 892))
         mt_4 = list(range(50, 92))
@@ -359,6 +359,11 @@ class AceEditor:
         for sum_mt, mts_in_sum in zip(sum_mts, sum_mts_list):
             # ensure the sum'd mt is present before trying to set it
             if sum_mt in self.all_mts:
+                # a sum which is not present is represented by what it sums
+                for mt, mts_in_mt in zip(sum_mts[::-1], sum_mts_list[::-1]):
+                    if mt in mts_in_sum and mt not in self.all_mts:
+                        mts_in_sum = [*mts_in_sum, *mts_in_mt]
+
                 # find out which MTs within the sum MTs are present
                 sum_mts_present = self._check_if_mts_present(mts_in_sum)
                 if sum_mts_present:
-- 
2.43.0


From 0afe9c7da71f86a02c14bde0aa8f3dc6631d512f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:39 +0000
Subject: [PATCH 14/57] fix: AceEditor does not share arrays with its callers

---
 ASAPy/AceIO.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index a4e85e7..5f4d0c5 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -261,8 +261,10 @@ class AceEditor:
         # handle nu differently than other xsec
         if mt == 452:
             _, sigma = self.get_nu_distro(unadjusted=unadjusted)
+            sigma = copy.deepcopy(sigma)
         elif mt == 1018:
             _, _, sigma, _ = self.get_chi_distro(unadjusted=unadjusted)
+            sigma = copy.deepcopy(sigma)
         else:
             try:
                 if unadjusted:
@@ -301,11 +303,11 @@ class AceEditor:
             self.original_sigma[mt] = current_sigma.copy()
 
         if mt == 452:
-            self.set_nu_distro(values_to_set)
+            self.set_nu_distro(copy.deepcopy(values_to_set))
         elif mt == 1018:
             self.set_chi_distro(values_to_set)
         else:
-            self.table.reactions[mt].xs[self.temperature].y = values_to_set
+            self.table.reactions[mt].xs[self.temperature].y = copy.deepcopy(values_to_set)
 
         self.adjusted_mts.add(mt)
 
-- 
2.43.0


From 9c180bc6cae459c7596d9b987209cb776ac506a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:39 +0000
Subject: [PATCH 15/57] fix: a fission spectrum with a wrong number of bins is
 rejected as a whole

---
 ASAPy/AceIO.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 5f4d0c5..23edd69 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -164,9 +164,11 @@ class AceEditor:
                 raise Exception("Number of out energies in pdf {0} not the same as ace {1}".format(
                     len(pdf), len(fission_chi_prompt.energy_out)))
 
-            if len(fission_chi_prompt.energy_out[0]) != len(pdf[0]):
-                raise Exception("Number of bins in out energy in pdf {0} not the same as ace {1}".format(
-                    len(pdf[0]), len(fission_chi_prompt.energy_out[0])))
+            # check everything before changing anything
+            for distro, distro_pdf in zip(fission_chi_prompt.energy_out, pdf):
+                if len(distro) != len(distro_pdf):
+                    raise Exception("Number of bins in out energy in pdf {0} not the same as ace {1}".format(
+                        len(distro_pdf), len(distro)))
 
             for idx, distro in enumerate(fission_chi_prompt.energy_out):
                 delta_pdf = pdf[idx] - distro.p
-- 
2.43.0


From 74968d6cd9b001542af2aae1ce2e588af9d6c88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:23 +0000
Subject: [PATCH 16/57] fix: programs get their input from a file (no deadlock,
 broken pipe or missing end of input)

---
 ASAPy/EndfToCov.py | 15 +++++++--------
 ASAPy/data/njoy.py | 12 +++++++-----
 ASAPy/njoy.py      | 12 +++++++-----
 3 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/ASAPy/EndfToCov.py b/ASAPy/EndfToCov.py
index dfbef89..a62296c 100644
--- a/ASAPy/EndfToCov.py
+++ b/ASAPy/EndfToCov.py
@@ -134,11 +134,12 @@ def run_program(commands, executable_path, stdout, run_dir, write_input_file=Non
             f.write(commands)
             f.write("\n")
 
-    # Start up process
-    executable = Popen([executable_path], cwd=run_dir, stdin=PIPE, stdout=PIPE,
-                 stderr=STDOUT, universal_newlines=True)
-    executable.stdin.write(commands)
-    executable.stdin.flush()
+    # Start up process, its input comes from a file so that it can be read at any pace and has an end
+    with tempfile.TemporaryFile('w+') as commands_file:
+        commands_file.write(commands)
+        commands_file.seek(0)
+        executable = Popen([executable_path], cwd=run_dir, stdin=commands_file, stdout=PIPE,
+                           stderr=STDOUT, universal_newlines=True)
     lines = []
 
     while True:
@@ -156,9 +157,7 @@ def run_program(commands, executable_path, stdout, run_dir, write_input_file=Non
         raise CalledProcessError(executable.returncode, executable_path,
                                  ''.join(lines))
 
-    executable.stdin.close()
-    if stdout:
-        executable.stdout.close()
+    executable.stdout.close()
 
 
 class read_boxer_out_matrix:
diff --git a/ASAPy/data/njoy.py b/ASAPy/data/njoy.py
index 36f6163..9a7d15e 100644
--- a/ASAPy/data/njoy.py
+++ b/ASAPy/data/njoy.py
@@ -155,12 +155,14 @@ def run(commands, tapein, tapeout, input_filename=None, stdout=False,
             tmpfilename = os.path.join(tmpdir, 'tape{}'.format(tape_num))
             shutil.copy(str(filename), tmpfilename)
 
-        # Start up NJOY process
-        njoy = Popen([njoy_exec], cwd=tmpdir, stdin=PIPE, stdout=PIPE,
-                     stderr=STDOUT, universal_newlines=True)
+        # Start up NJOY process, its input comes from a file so that it can be
+        # read at any pace and has an end
+        with tempfile.TemporaryFile('w+') as commands_file:
+            commands_file.write(commands)
+            commands_file.seek(0)
+            njoy = Popen([njoy_exec], cwd=tmpdir, stdin=commands_file,
+                         stdout=PIPE, stderr=STDOUT, universal_newlines=True)
 
-        njoy.stdin.write(commands)
-        njoy.stdin.flush()
         lines = []
         while True:
             # If process is finished, break loop
diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index 2ad08be..adc4908 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -363,12 +363,14 @@ def run(commands, tapein, tapeout, input_filename=None, stdout=False,
             tmpfilename = os.path.join(tmpdir, 'tape{}'.format(tape_num))
             shutil.copy(filename, tmpfilename)
 
-        # Start up NJOY process
-        njoy = Popen([njoy_exec], cwd=tmpdir, stdin=PIPE, stdout=PIPE,
-                     stderr=STDOUT, universal_newlines=True)
+        # Start up NJOY process, its input comes from a file so that it can be
+        # read at any pace and has an end
+        with tempfile.TemporaryFile('w+') as commands_file:
+            commands_file.write(commands)
+            commands_file.seek(0)
+            njoy = Popen([njoy_exec], cwd=tmpdir, stdin=commands_file,
+                         stdout=PIPE, stderr=STDOUT, universal_newlines=True)
 
-        njoy.stdin.write(commands)
-        njoy.stdin.flush()
         lines = []
         while True:
             # If process is finished, break loop
-- 
2.43.0


From 67eaabf7b73553ae17e50d5306178375bea46688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:23 +0000
Subject: [PATCH 17/57] fix: files of an earlier run are not taken for results
 of a covariance extraction

---
 ASAPy/EndfToCov.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ASAPy/EndfToCov.py b/ASAPy/EndfToCov.py
index a62296c..d3d38b6 100644
--- a/ASAPy/EndfToCov.py
+++ b/ASAPy/EndfToCov.py
@@ -69,6 +69,14 @@ def _run_cover_chain(njoy_commands, tapein, tapeout, cover_tapes, mat_num, mts,
         if not use_temp_folder:
             tmpdir = output_base_path
 
+        # files left by an earlier run must not be taken for results of this one
+        old_files = [os.path.join(tmpdir, name) for name in ('output', 'fort.21')]
+        old_files += [os.path.join(tmpdir, 'tape{}'.format(tape_num)) for tape_num in tapeout]
+        old_files += [os.path.join(output_base_path, filename) for filename in tapeout.values()]
+        for old_file in old_files:
+            if os.path.isfile(old_file):
+                os.remove(old_file)
+
         # Copy evaluations to appropriates 'tapes'
         for tape_num, filename in tapein.items():
             tmpfilename = os.path.join(tmpdir, 'tape{}'.format(tape_num))
-- 
2.43.0


From 007b18c346b45eea4cacd4e139b468589a1f1c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:23 +0000
Subject: [PATCH 18/57] fix: files of an earlier run are not taken for tables
 made by NJOY

---
 ASAPy/data/njoy.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ASAPy/data/njoy.py b/ASAPy/data/njoy.py
index 9a7d15e..c0684d3 100644
--- a/ASAPy/data/njoy.py
+++ b/ASAPy/data/njoy.py
@@ -187,6 +187,20 @@ def run(commands, tapein, tapeout, input_filename=None, stdout=False,
                 shutil.move(tmpfilename, str(filename))
 
 
+def _remove_old_files(tapeout):
+    """Remove files of an earlier run so that they are not taken for results
+
+    Parameters
+    ----------
+    tapeout : dict
+        Dictionary mapping tape numbers to paths for any output files
+
+    """
+    for filename in tapeout.values():
+        if os.path.isfile(str(filename)):
+            os.remove(str(filename))
+
+
 def make_pendf(filename, pendf='pendf', error=0.001, stdout=False):
     """Generate ACE file from an ENDF file
 
@@ -311,6 +325,7 @@ def make_ace(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=None,
             tapeout[nace] = fname.format(ace, temperature)
             tapeout[ndir] = fname.format(xsdir, temperature)
     commands += 'stop\n'
+    _remove_old_files(tapeout)
     run(commands, tapein, tapeout, **kwargs)
 
     if acer:
@@ -460,6 +475,7 @@ def make_ace_thermal(filename, filename_thermal, temperatures=None,
         tapeout[nace] = fname.format(ace, temperature)
         tapeout[ndir] = fname.format(xsdir, temperature)
     commands += 'stop\n'
+    _remove_old_files(tapeout)
     run(commands, tapein, tapeout, **kwargs)
 
     with open(ace, 'w') as ace_file, open(xsdir, 'w') as xsdir_file:
-- 
2.43.0


From c385cba448316c2e9760b17fbc5ae9025c949643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:23 +0000
Subject: [PATCH 19/57] fix: correlations and deviations of a reaction are
 stored together or not at all

---
 ASAPy/EndfToCov.py | 58 +++++++++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/ASAPy/EndfToCov.py b/ASAPy/EndfToCov.py
index d3d38b6..18dd581 100644
--- a/ASAPy/EndfToCov.py
+++ b/ASAPy/EndfToCov.py
@@ -361,7 +361,7 @@ def process_cov_to_h5(output_dir, zaid, mt, boxer_matrix_name='covr_300.txt_{mt}
         rbo = read_boxer_out_matrix(os.path.join(output_dir, boxer_matrix_name.format(mt=mt)))
         group_bounds, xsec, std_dev, cov = rbo.get_block_data()
     except RuntimeError as e:
-        print(f"Skipping zaid/mt {zaid}/{mt} {REACTION_NAME[mt]} in due to boxer output errors: {e}")
+        print(f"Skipping zaid/mt {zaid}/{mt} {REACTION_NAME.get(mt)} in due to boxer output errors: {e}")
         return
 
     groups = cov.shape[0]
@@ -376,30 +376,40 @@ def process_cov_to_h5(output_dir, zaid, mt, boxer_matrix_name='covr_300.txt_{mt}
         corr[corr > 1] = 1
         corr[corr < -1] = -1
 
+    corr_df = AsapyCovStorage.create_corr_df(groups)
+    corr_df.loc[:, :] = corr
+    # allow no nan's in output
+    corr_df = corr_df.fillna(0)
+
+    df = AsapyCovStorage.create_stddev_df(groups)
+
+    df['e high'] = group_bounds[0:-1]
+    df['e low'] = group_bounds[1:]
+    df['x-sec(1)'] = xsec
+    df['x-sec(2)'] = xsec
+    df['rel.s.d.(1)'] = std_dev / xsec
+    df['rel.s.d(2)'] = std_dev / xsec
+    df['s.d.(1)'] = std_dev
+    df['s.d(2)'] = std_dev
+    # set all NaN's (which presumably had 0 xsec) to sensible values for future sampling
+    # values set to 1.0 \pm 1e-15 so that the point can be sampled and it won't change off of 1.0
+    df.loc[df['rel.s.d.(1)'].isna(), ('x-sec(1)', 'x-sec(2)')] = 0.0
+    df.loc[df['rel.s.d.(1)'].isna(), ('s.d.(1)', 's.d(2)')] = 1e-7
+    df.loc[df['rel.s.d.(1)'].isna(), ('rel.s.d.(1)', 'rel.s.d(2)')] = 1e-7
+
+    # the two tables belong together, so make sure both are fine before adding any of them
+    AsapyCovStorage.check_correlation_df(corr_df)
+    AsapyCovStorage.check_stddev_df(df)
+
     with pd.HDFStore(os.path.join(output_dir, output_h5_name), 'a') as h:
-        df = AsapyCovStorage.create_corr_df(groups)
-        df.loc[:, :] = corr
-        # allow no nan's in output
-        df = df.fillna(0)
-
-        AsapyCovStorage.add_corr_to_store(h, df, zaid, mt, zaid, mt)
-        df = AsapyCovStorage.create_stddev_df(groups)
-
-        df['e high'] = group_bounds[0:-1]
-        df['e low'] = group_bounds[1:]
-        df['x-sec(1)'] = xsec
-        df['x-sec(2)'] = xsec
-        df['rel.s.d.(1)'] = std_dev / xsec
-        df['rel.s.d(2)'] = std_dev / xsec
-        df['s.d.(1)'] = std_dev
-        df['s.d(2)'] = std_dev
-        # set all NaN's (which presumably had 0 xsec) to sensible values for future sampling
-        # values set to 1.0 \pm 1e-15 so that the point can be sampled and it won't change off of 1.0
-        df.loc[df['rel.s.d.(1)'].isna(), ('x-sec(1)', 'x-sec(2)')] = 0.0
-        df.loc[df['rel.s.d.(1)'].isna(), ('s.d.(1)', 's.d(2)')] = 1e-7
-        df.loc[df['rel.s.d.(1)'].isna(), ('rel.s.d.(1)', 'rel.s.d(2)')] = 1e-7
-
-        AsapyCovStorage.add_stddev_to_store(h, df, zaid, mt, zaid, mt)
+        try:
+            AsapyCovStorage.add_corr_to_store(h, corr_df, zaid, mt, zaid, mt)
+            AsapyCovStorage.add_stddev_to_store(h, df, zaid, mt, zaid, mt)
+        except Exception:
+            # an entry which could not be written completely is of no use
+            if '{0}/{1}/{0}/{1}'.format(zaid, mt) in h:
+                h.remove('{0}/{1}/{0}/{1}'.format(zaid, mt))
+            raise
 
 def parse_args(args):
     """
-- 
2.43.0


From 585cd8424869c829495d3eea84045cfc16e9b716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:37 +0000
Subject: [PATCH 20/57] fix: output of a program that is not valid text does
 not fail a successful run

---
 ASAPy/EndfToCov.py | 2 +-
 ASAPy/data/njoy.py | 3 ++-
 ASAPy/njoy.py      | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ASAPy/EndfToCov.py b/ASAPy/EndfToCov.py
index 18dd581..152a019 100644
--- a/ASAPy/EndfToCov.py
+++ b/ASAPy/EndfToCov.py
@@ -147,7 +147,7 @@ def run_program(commands, executable_path, stdout, run_dir, write_input_file=Non
         commands_file.write(commands)
         commands_file.seek(0)
         executable = Popen([executable_path], cwd=run_dir, stdin=commands_file, stdout=PIPE,
-                           stderr=STDOUT, universal_newlines=True)
+                           stderr=STDOUT, universal_newlines=True, errors='replace')
     lines = []
 
     while True:
diff --git a/ASAPy/data/njoy.py b/ASAPy/data/njoy.py
index c0684d3..0858b6e 100644
--- a/ASAPy/data/njoy.py
+++ b/ASAPy/data/njoy.py
@@ -161,7 +161,8 @@ def run(commands, tapein, tapeout, input_filename=None, stdout=False,
             commands_file.write(commands)
             commands_file.seek(0)
             njoy = Popen([njoy_exec], cwd=tmpdir, stdin=commands_file,
-                         stdout=PIPE, stderr=STDOUT, universal_newlines=True)
+                         stdout=PIPE, stderr=STDOUT, universal_newlines=True,
+                         errors='replace')
 
         lines = []
         while True:
diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index adc4908..362dc10 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -369,7 +369,8 @@ def run(commands, tapein, tapeout, input_filename=None, stdout=False,
             commands_file.write(commands)
             commands_file.seek(0)
             njoy = Popen([njoy_exec], cwd=tmpdir, stdin=commands_file,
-                         stdout=PIPE, stderr=STDOUT, universal_newlines=True)
+                         stdout=PIPE, stderr=STDOUT, universal_newlines=True,
+                         errors='replace')
 
         lines = []
         while True:
-- 
2.43.0


From 3d6e42e9e9175dce1fbf60aec1577bfd2eadebdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:13 +0000
Subject: [PATCH 21/57] fix: an ENDF file which ends within a section is
 reported instead of read for ever

---
 ASAPy/data/endf.py | 3 +++
 ASAPy/endf.py      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ASAPy/data/endf.py b/ASAPy/data/endf.py
index 0e56c1a..65267b3 100644
--- a/ASAPy/data/endf.py
+++ b/ASAPy/data/endf.py
@@ -423,6 +423,9 @@ class Evaluation(object):
             section_data = ''
             while True:
                 line = fh.readline()
+                if not line:
+                    raise ValueError('ENDF file ends within MF={}, MT={}'
+                                     .format(MF, MT))
                 if line[72:75] == '  0':
                     break
                 else:
diff --git a/ASAPy/endf.py b/ASAPy/endf.py
index 042051a..00b2ad0 100644
--- a/ASAPy/endf.py
+++ b/ASAPy/endf.py
@@ -358,6 +358,9 @@ class Evaluation(object):
             section_data = ''
             while True:
                 line = fh.readline()
+                if not line:
+                    raise ValueError('ENDF file ends within MF={}, MT={}'
+                                     .format(MF, MT))
                 if line[72:75] == '  0':
                     break
                 else:
-- 
2.43.0


From 80f4ea45548e0de2a218b8134900a4930d6196be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:13 +0000
Subject: [PATCH 22/57] fix: reading all evaluations of a tape does not fail
 after the first one

---
 ASAPy/endf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ASAPy/endf.py b/ASAPy/endf.py
index 00b2ad0..8fb66b2 100644
--- a/ASAPy/endf.py
+++ b/ASAPy/endf.py
@@ -369,7 +369,9 @@ class Evaluation(object):
 
         self._read_header()
 
-        fh.close()
+        # a file opened by the caller might have more materials
+        if fh is not filename_or_obj:
+            fh.close()
 
     def _read_header(self):
         file_obj = io.StringIO(self.section[1, 451])
-- 
2.43.0


From 97f5299470f2741c40e4cb850b08e133df174718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:32 +0000
Subject: [PATCH 23/57] fix: the user flux weight is also given to the nu and
 chi groupr run

---
 ASAPy/njoy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index 362dc10..6092b82 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -164,8 +164,8 @@ nu and chi /
 {cov_group_bounds}/"""
 
     if user_flux_weight:
-        # no newline needed since the next part has a new line to start with
-        s += user_flux_weight + "/"
+        # the card after the group bounds, no newline needed at its end since the next part has a new line to start with
+        s += "\n" + user_flux_weight + "/"
 
     for i in range(num_temp):
         s += """
@@ -575,7 +575,7 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
             commands += "\n-- Nu-bar / Chi groupr\n"
             ngroupr_in = nbroadr  # PENDF tape
             ngroupr_out = nlast + 1
-            s = _TEMPLATE_GROUPR_FOR_PLOT(num_temp)
+            s = _TEMPLATE_GROUPR_FOR_PLOT(num_temp, user_flux_weight if iwt_fluxweight == 1 else None)
             commands += s.format(**locals())
 
             nlast += 1
-- 
2.43.0


From 9790934c3a050e41ec5a61f04e8d4cc6534499eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:28 +0000
Subject: [PATCH 24/57] fix: a killed extraction does not leave an unreadable
 or incomplete covariance store

---
 ASAPy/EndfToCov.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/ASAPy/EndfToCov.py b/ASAPy/EndfToCov.py
index 152a019..921b850 100644
--- a/ASAPy/EndfToCov.py
+++ b/ASAPy/EndfToCov.py
@@ -401,15 +401,24 @@ def process_cov_to_h5(output_dir, zaid, mt, boxer_matrix_name='covr_300.txt_{mt}
     AsapyCovStorage.check_correlation_df(corr_df)
     AsapyCovStorage.check_stddev_df(df)
 
-    with pd.HDFStore(os.path.join(output_dir, output_h5_name), 'a') as h:
-        try:
+    # an interrupted write can leave an unreadable HDF5 file or half an entry, so add to a copy that then replaces the store
+    output_h5 = os.path.join(output_dir, output_h5_name)
+    new_h5 = output_h5 + ".new"
+    try:
+        if os.path.isfile(output_h5):
+            shutil.copy(output_h5, new_h5)
+        elif os.path.isfile(new_h5):
+            os.remove(new_h5)
+
+        with pd.HDFStore(new_h5, 'a') as h:
             AsapyCovStorage.add_corr_to_store(h, corr_df, zaid, mt, zaid, mt)
             AsapyCovStorage.add_stddev_to_store(h, df, zaid, mt, zaid, mt)
-        except Exception:
-            # an entry which could not be written completely is of no use
-            if '{0}/{1}/{0}/{1}'.format(zaid, mt) in h:
-                h.remove('{0}/{1}/{0}/{1}'.format(zaid, mt))
-            raise
+
+        os.replace(new_h5, output_h5)
+    finally:
+        if os.path.isfile(new_h5):
+            os.remove(new_h5)
+
 
 def parse_args(args):
     """
-- 
2.43.0


From ec6f7dc4f8bbaa2f0de88932ce75d05026d39099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:31 +0000
Subject: [PATCH 25/57] fix: tables of an ACE text file can be read by name

---
 ASAPy/data/ace.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/ASAPy/data/ace.py b/ASAPy/data/ace.py
index b1f2b09..7fbf071 100644
--- a/ASAPy/data/ace.py
+++ b/ASAPy/data/ace.py
@@ -15,7 +15,6 @@ generates ACE-format cross sections.
 
 """
 
-from os import SEEK_CUR
 from pathlib import PurePath
 import struct
 import sys
@@ -378,7 +377,6 @@ class Library(EqualityMixin):
             nxs = np.fromstring(datastr, sep=' ', dtype=int)
 
             n_lines = (nxs[1] + 3)//4
-            n_bytes = len(lines[-1]) * (n_lines - 2) + 1
 
             # Ensure that we have more tables to read in
             if (table_names is not None) and (table_names < tables_seen):
@@ -387,17 +385,13 @@ class Library(EqualityMixin):
 
             # verify that we are suppossed to read this table in
             if (table_names is not None) and (name not in table_names):
-                ace_file.seek(n_bytes, SEEK_CUR)
-                ace_file.readline()
+                for i in range(n_lines - 1):
+                    ace_file.readline()
                 lines = [ace_file.readline() for i in range(13)]
                 continue
 
-            # read and fix over-shoot
-            lines += ace_file.readlines(n_bytes)
-            if 12 + n_lines < len(lines):
-                goback = sum([len(line) for line in lines[12+n_lines:]])
-                lines = lines[:12+n_lines]
-                ace_file.seek(-goback, SEEK_CUR)
+            # read the remaining lines of this table
+            lines += [ace_file.readline() for i in range(n_lines - 1)]
 
             if verbose:
                 kelvin = round(temperature * 1e6 / 8.617342e-5)
-- 
2.43.0


From 51b6679d50c05d5c35edf20dc894950644c34d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:31 +0000
Subject: [PATCH 26/57] fix: ACE text files with values less than 1e-100 can be
 converted to binary

---
 ASAPy/data/ace.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/ace.py b/ASAPy/data/ace.py
index 7fbf071..57e46ad 100644
--- a/ASAPy/data/ace.py
+++ b/ASAPy/data/ace.py
@@ -153,8 +153,10 @@ def ascii_to_binary(ascii_file, binary_file):
         # Read/write XSS array. Null bytes are added to form a complete record
         # at the end of the file
         n_lines = (nxs[0] + 3)//4
-        xss = list(map(float, ' '.join(lines[
-            idx + 12:idx + 12 + n_lines]).split()))
+        # values less than 1e-100 are written without the 'e' by NJOY
+        datastr = ENDF_FLOAT_RE.sub(r'\1e\2', ' '.join(lines[
+            idx + 12:idx + 12 + n_lines]))
+        xss = list(map(float, datastr.split()))
         extra_bytes = record_length - ((len(xss)*8 - 1) % record_length + 1)
         binary.write(struct.pack(str('={0}d{1}x'.format(nxs[0], extra_bytes)),
                                  *xss))
-- 
2.43.0


From a960296cf7a4fee5905ccee5536f6b8543a59d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:31 +0000
Subject: [PATCH 27/57] fix: a matrix file cut inside its last number is
 rejected

---
 ASAPy/EndfToCov.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ASAPy/EndfToCov.py b/ASAPy/EndfToCov.py
index 921b850..eae689e 100644
--- a/ASAPy/EndfToCov.py
+++ b/ASAPy/EndfToCov.py
@@ -282,6 +282,9 @@ class read_boxer_out_matrix:
         block_lines_str = ''.join(block_lines_no_newlines)
 
         string_width = 10
+        if len(block_lines_str) % string_width != 0:
+            raise ValueError("A number is incomplete between lines {} and {}".format(line_num_start, line_num_end))
+
         # split on every 10 chars
         block_lines_str = [block_lines_str[i:i + string_width] for i in range(0, len(block_lines_str), string_width)]
         # rejoin string, leaving a space so that numpy can read it nicely
-- 
2.43.0


From 82d7273b506476d67202058e1745d52c7c05704f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:13 +0000
Subject: [PATCH 28/57] fix: a last ACE number below 1e-100 keeps its exponent

---
 ASAPy/data/ace.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/ace.py b/ASAPy/data/ace.py
index 57e46ad..d81a525 100644
--- a/ASAPy/data/ace.py
+++ b/ASAPy/data/ace.py
@@ -414,7 +414,9 @@ class Library(EqualityMixin):
             # 1.0-120 is encountered, np.fromstring won't capture any numbers
             # after it). If it's too short, then we apply the ENDF float regular
             # expression. We don't do this by default because it's expensive!
-            if xss.size != nxs[1] + 1:
+            # The very last number does not change the size, so look at it too.
+            if (xss.size != nxs[1] + 1 or
+                    ENDF_FLOAT_RE.search(lines[11+n_lines])):
                 datastr = ENDF_FLOAT_RE.sub(r'\1e\2', datastr)
                 xss = np.fromstring(datastr, sep=' ')
                 assert xss.size == nxs[1] + 1
-- 
2.43.0


From 26457638c296cffb985f1aa7fa7c8c3859250c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:47 +0000
Subject: [PATCH 29/57] fix: the total and the non-elastic cross section
 include MT 152-200

---
 ASAPy/AceIO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 23edd69..36bfbed 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -352,7 +352,7 @@ class AceEditor:
 
         # according to https://t2.lanl.gov/nis/endf/mts.html
         mt_3 = [4, 5, 11, 16, 17, 18, *list(range(22, 27)), *list(range(28, 38)), 41, 42, *list(range(44, 46)),
-                *list(range(102, 118))]
+                *list(range(102, 118)), *list(range(152, 201))]
 
         mt_1 = [2, *mt_3]  # contains 3 which is a sum
 
-- 
2.43.0


From 07b6632eb7ece91086e52512a8fb103be787b4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:04 +0000
Subject: [PATCH 30/57] fix: njoy.make_njoy_run(run=True) and make_pendf run
 NJOY and write the tables

---
 ASAPy/njoy.py | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index 6092b82..57df35b 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -396,6 +396,24 @@ def run(commands, tapein, tapeout, input_filename=None, stdout=False,
                 shutil.move(tmpfilename, filename)
 
 
+# make_njoy_run has an option of the same name
+_run_njoy = run
+
+
+def _remove_old_files(tapeout):
+    """Remove files of an earlier run so that they are not taken for results
+
+    Parameters
+    ----------
+    tapeout : dict
+        Dictionary mapping tape numbers to paths for any output files
+
+    """
+    for filename in tapeout.values():
+        if os.path.isfile(filename):
+            os.remove(filename)
+
+
 def make_pendf(filename, pendf='pendf', error=0.001, stdout=False):
     """Generate ACE file from an ENDF file
 
@@ -418,7 +436,8 @@ def make_pendf(filename, pendf='pendf', error=0.001, stdout=False):
     """
 
     make_njoy_run(filename, pendf=pendf, error=error, broadr=False,
-                  heatr=False, purr=False, acer=False, stdout=stdout)
+                  heatr=False, purr=False, acer=False, errorr=False, run=True,
+                  stdout=stdout)
 
 
 def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=None,
@@ -662,7 +681,8 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
             tapeout[ndir] = fname.format(xsdir, temperature)
     commands += 'stop\n'
     if run:
-        run(commands, tapein, tapeout, **kwargs)
+        _remove_old_files(tapeout)
+        _run_njoy(commands, tapein, tapeout, **kwargs)
     else:
         with open('njoy_in.txt', 'w') as f:
             f.write(commands)
@@ -680,6 +700,18 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
                         mass_first_digit = int(text[3])
                         if mass_first_digit <= 2:
                             text = text[:3] + str(mass_first_digit + 4) + text[4:]
+
+                    # Concatenate into destination ACE file
+                    ace_file.write(text)
+
+                    # Concatenate into destination xsdir file
+                    text = open(fname.format(xsdir, temperature), 'r').read()
+                    xsdir_file.write(text)
+
+            # Remove ACE/xsdir files for each temperature
+            for temperature in temperatures:
+                os.remove(fname.format(ace, temperature))
+                os.remove(fname.format(xsdir, temperature))
         else:
             # see if the user should know to edit the acer file later
             if ev.target['isomeric_state'] > 0:
-- 
2.43.0


From f772eadb1e106e93d4516fe7e9dea46cb31406dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:04 +0000
Subject: [PATCH 31/57] fix: njoy.make_ace_thermal writes the ACE and xsdir
 file

---
 ASAPy/njoy.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index 57df35b..635c350 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -859,8 +859,23 @@ def make_ace_thermal(filename, filename_thermal, temperatures=None,
         tapeout[nace] = fname.format(ace, temperature)
         tapeout[ndir] = fname.format(xsdir, temperature)
     commands += 'stop\n'
+    _remove_old_files(tapeout)
     run(commands, tapein, tapeout, **kwargs)
-        
+
+    with open(ace, 'w') as ace_file, open(xsdir, 'w') as xsdir_file:
+        # Concatenate ACE and xsdir files together
+        for temperature in temperatures:
+            text = open(fname.format(ace, temperature), 'r').read()
+            ace_file.write(text)
+
+            text = open(fname.format(xsdir, temperature), 'r').read()
+            xsdir_file.write(text)
+
+    # Remove ACE/xsdir files for each temperature
+    for temperature in temperatures:
+        os.remove(fname.format(ace, temperature))
+        os.remove(fname.format(xsdir, temperature))
+
 if __name__ == "__main__":
     make_njoy_run('/Users/veeshy/projects/ASAPy/data/e71/tape20', temperatures=[300], ace='ace', xsdir='xsdir', pendf=None,
                   error=0.001, broadr=True, heatr=False, purr=False, acer=False, errorr=True,
-- 
2.43.0


From fb35a3c5cefd6d49fab07fba6945837e3dbbacf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:52 +0000
Subject: [PATCH 32/57] fix: data exported to HDF5 can be read back with h5py 3

---
 ASAPy/data/angle_distribution.py  |  2 +-
 ASAPy/data/correlated.py          |  6 +++---
 ASAPy/data/energy_distribution.py |  2 +-
 ASAPy/data/function.py            |  6 +++---
 ASAPy/data/kalbach_mann.py        |  2 +-
 ASAPy/data/multipole.py           | 16 ++++++++--------
 ASAPy/data/neutron.py             |  4 ++--
 ASAPy/data/photon.py              | 14 +++++++-------
 ASAPy/data/reaction.py            |  2 +-
 ASAPy/data/thermal.py             | 12 ++++++------
 ASAPy/data/urr.py                 |  4 ++--
 11 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/ASAPy/data/angle_distribution.py b/ASAPy/data/angle_distribution.py
index e523f91..42df7c5 100644
--- a/ASAPy/data/angle_distribution.py
+++ b/ASAPy/data/angle_distribution.py
@@ -115,7 +115,7 @@ class AngleDistribution(EqualityMixin):
             Angular distribution
 
         """
-        energy = group['energy'].value
+        energy = group['energy'][()]
         data = group['mu']
         offsets = data.attrs['offsets']
         interpolation = data.attrs['interpolation']
diff --git a/ASAPy/data/correlated.py b/ASAPy/data/correlated.py
index 5d76ee8..5b2d145 100644
--- a/ASAPy/data/correlated.py
+++ b/ASAPy/data/correlated.py
@@ -210,15 +210,15 @@ class CorrelatedAngleEnergy(AngleEnergy):
         interp_data = group['energy'].attrs['interpolation']
         energy_breakpoints = interp_data[0, :]
         energy_interpolation = interp_data[1, :]
-        energy = group['energy'].value
+        energy = group['energy'][()]
 
         offsets = group['energy_out'].attrs['offsets']
         interpolation = group['energy_out'].attrs['interpolation']
         n_discrete_lines = group['energy_out'].attrs['n_discrete_lines']
-        dset_eout = group['energy_out'].value
+        dset_eout = group['energy_out'][()]
         energy_out = []
 
-        dset_mu = group['mu'].value
+        dset_mu = group['mu'][()]
         mu = []
 
         n_energy = len(energy)
diff --git a/ASAPy/data/energy_distribution.py b/ASAPy/data/energy_distribution.py
index f92e440..0243aab 100644
--- a/ASAPy/data/energy_distribution.py
+++ b/ASAPy/data/energy_distribution.py
@@ -1144,7 +1144,7 @@ class ContinuousTabular(EnergyDistribution):
         interp_data = group['energy'].attrs['interpolation']
         energy_breakpoints = interp_data[0, :]
         energy_interpolation = interp_data[1, :]
-        energy = group['energy'].value
+        energy = group['energy'][()]
 
         data = group['distribution']
         offsets = data.attrs['offsets']
diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 907c283..ecc9ff3 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -348,8 +348,8 @@ class Tabulated1D(Function1D):
             raise ValueError("Expected an HDF5 attribute 'type' equal to '"
                              + cls.__name__ + "'")
 
-        x = dataset.value[0, :]
-        y = dataset.value[1, :]
+        x = dataset[0, :]
+        y = dataset[1, :]
         breakpoints = dataset.attrs['breakpoints']
         interpolation = dataset.attrs['interpolation']
         return cls(x, y, breakpoints, interpolation)
@@ -433,7 +433,7 @@ class Polynomial(np.polynomial.Polynomial, Function1D):
         if dataset.attrs['type'].decode() != cls.__name__:
             raise ValueError("Expected an HDF5 attribute 'type' equal to '"
                              + cls.__name__ + "'")
-        return cls(dataset.value)
+        return cls(dataset[()])
 
 
 class Combination(EqualityMixin):
diff --git a/ASAPy/data/kalbach_mann.py b/ASAPy/data/kalbach_mann.py
index 8f9b77e..06e7925 100644
--- a/ASAPy/data/kalbach_mann.py
+++ b/ASAPy/data/kalbach_mann.py
@@ -203,7 +203,7 @@ class KalbachMann(angle_energy.AngleEnergy):
         interp_data = group['energy'].attrs['interpolation']
         energy_breakpoints = interp_data[0, :]
         energy_interpolation = interp_data[1, :]
-        energy = group['energy'].value
+        energy = group['energy'][()]
 
         data = group['distribution']
         offsets = data.attrs['offsets']
diff --git a/ASAPy/data/multipole.py b/ASAPy/data/multipole.py
index 01ad229..e97605c 100644
--- a/ASAPy/data/multipole.py
+++ b/ASAPy/data/multipole.py
@@ -356,24 +356,24 @@ class WindowedMultipole(EqualityMixin):
 
         # Read scalars.
 
-        out.spacing = group['spacing'].value
-        out.sqrtAWR = group['sqrtAWR'].value
-        out.E_min = group['E_min'].value
-        out.E_max = group['E_max'].value
+        out.spacing = group['spacing'][()]
+        out.sqrtAWR = group['sqrtAWR'][()]
+        out.E_min = group['E_min'][()]
+        out.E_max = group['E_max'][()]
 
         # Read arrays.
 
         err = "WMP '{}' array shape is not consistent with the '{}' array shape"
 
-        out.data = group['data'].value
+        out.data = group['data'][()]
 
-        out.windows = group['windows'].value
+        out.windows = group['windows'][()]
 
-        out.broaden_poly = group['broaden_poly'].value.astype(np.bool)
+        out.broaden_poly = group['broaden_poly'][()].astype(bool)
         if out.broaden_poly.shape[0] != out.windows.shape[0]:
             raise ValueError(err.format('broaden_poly', 'windows'))
 
-        out.curvefit = group['curvefit'].value
+        out.curvefit = group['curvefit'][()]
         if out.curvefit.shape[0] != out.windows.shape[0]:
             raise ValueError(err.format('curvefit', 'windows'))
 
diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index cff3c8f..ef64008 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -518,7 +518,7 @@ class IncidentNeutron(EqualityMixin):
         kTg = group['kTs']
         kTs = []
         for temp in kTg:
-            kTs.append(kTg[temp].value)
+            kTs.append(kTg[temp][()])
 
         data = cls(name, atomic_number, mass_number, metastable,
                    atomic_weight_ratio, kTs)
@@ -526,7 +526,7 @@ class IncidentNeutron(EqualityMixin):
         # Read energy grid
         e_group = group['energy']
         for temperature, dset in e_group.items():
-            data.energy[temperature] = dset.value
+            data.energy[temperature] = dset[()]
 
         # Read reaction data
         rxs_group = group['reactions']
diff --git a/ASAPy/data/photon.py b/ASAPy/data/photon.py
index 44d8ca4..2596d8a 100644
--- a/ASAPy/data/photon.py
+++ b/ASAPy/data/photon.py
@@ -560,12 +560,12 @@ class IncidentPhoton(EqualityMixin):
         if not _COMPTON_PROFILES:
             filename = os.path.join(os.path.dirname(__file__), 'compton_profiles.h5')
             with h5py.File(filename, 'r') as f:
-                _COMPTON_PROFILES['pz'] = f['pz'].value
+                _COMPTON_PROFILES['pz'] = f['pz'][()]
                 for i in range(1, 101):
                     group = f['{:03}'.format(i)]
-                    num_electrons = group['num_electrons'].value
-                    binding_energy = group['binding_energy'].value*EV_PER_MEV
-                    J = group['J'].value
+                    num_electrons = group['num_electrons'][()]
+                    binding_energy = group['binding_energy'][()]*EV_PER_MEV
+                    J = group['J'][()]
                     _COMPTON_PROFILES[i] = {'num_electrons': num_electrons,
                                             'binding_energy': binding_energy,
                                             'J': J}
@@ -582,15 +582,15 @@ class IncidentPhoton(EqualityMixin):
             filename = os.path.join(os.path.dirname(__file__), 'stopping_powers.h5')
             with h5py.File(filename, 'r') as f:
                 # Units are in MeV; convert to eV
-                _STOPPING_POWERS['energy'] = f['energy'].value*EV_PER_MEV
+                _STOPPING_POWERS['energy'] = f['energy'][()]*EV_PER_MEV
                 for i in range(1, 99):
                     group = f['{:03}'.format(i)]
 
                     # Units are in MeV cm^2/g; convert to eV cm^2/g
                     _STOPPING_POWERS[i] = {
                         'I': group.attrs['I'],
-                        's_collision': group['s_collision'].value*EV_PER_MEV,
-                        's_radiative': group['s_radiative'].value*EV_PER_MEV
+                        's_collision': group['s_collision'][()]*EV_PER_MEV,
+                        's_radiative': group['s_radiative'][()]*EV_PER_MEV
                     }
 
         # Add stopping power data
diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index bfc2598..269f571 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -936,7 +936,7 @@ class Reaction(EqualityMixin):
                             'Could not create reaction cross section for MT={} '
                             'at T={} because no corresponding energy grid '
                             'exists.'.format(mt, T))
-                    xs = Tgroup['xs'].value
+                    xs = Tgroup['xs'][()]
                     threshold_idx = Tgroup['xs'].attrs['threshold_idx'] - 1
                     tabulated_xs = Tabulated1D(energy[T][threshold_idx:], xs)
                     tabulated_xs._threshold_idx = threshold_idx
diff --git a/ASAPy/data/thermal.py b/ASAPy/data/thermal.py
index 2022a25..0fc40b3 100644
--- a/ASAPy/data/thermal.py
+++ b/ASAPy/data/thermal.py
@@ -196,8 +196,8 @@ class CoherentElastic(EqualityMixin):
             Coherent elastic scattering cross section
 
         """
-        bragg_edges = dataset.value[0, :]
-        factors = dataset.value[1, :]
+        bragg_edges = dataset[0, :]
+        factors = dataset[1, :]
         return cls(bragg_edges, factors)
 
 
@@ -410,7 +410,7 @@ class ThermalScattering(EqualityMixin):
         kTg = group['kTs']
         kTs = []
         for temp in kTg:
-            kTs.append(kTg[temp].value)
+            kTs.append(kTg[temp][()])
         temperatures = [str(int(round(kT / K_BOLTZMANN))) + "K" for kT in kTs]
 
         table = cls(name, atomic_weight_ratio, kTs)
@@ -434,7 +434,7 @@ class ThermalScattering(EqualityMixin):
 
                 # Angular distribution
                 if 'mu_out' in elastic_group:
-                    table.elastic_mu_out[T] = elastic_group['mu_out'].value
+                    table.elastic_mu_out[T] = elastic_group['mu_out'][()]
 
             # Read thermal inelastic scattering
             if 'inelastic' in Tgroup:
@@ -442,8 +442,8 @@ class ThermalScattering(EqualityMixin):
                 table.inelastic_xs[T] = Tabulated1D.from_hdf5(
                     inelastic_group['xs'])
                 if table.secondary_mode in ('equal', 'skewed'):
-                    table.inelastic_e_out[T] = inelastic_group['energy_out'].value
-                    table.inelastic_mu_out[T] = inelastic_group['mu_out'].value
+                    table.inelastic_e_out[T] = inelastic_group['energy_out'][()]
+                    table.inelastic_mu_out[T] = inelastic_group['mu_out'][()]
                 elif table.secondary_mode == 'continuous':
                     table.inelastic_dist[T] = AngleEnergy.from_hdf5(
                         inelastic_group)
diff --git a/ASAPy/data/urr.py b/ASAPy/data/urr.py
index b6b4c48..20001aa 100644
--- a/ASAPy/data/urr.py
+++ b/ASAPy/data/urr.py
@@ -166,8 +166,8 @@ class ProbabilityTables(EqualityMixin):
         absorption_flag = group.attrs['absorption']
         multiply_smooth = bool(group.attrs['multiply_smooth'])
 
-        energy = group['energy'].value
-        table = group['table'].value
+        energy = group['energy'][()]
+        table = group['table'][()]
 
         return cls(energy, table, interpolation, inelastic_flag,
                    absorption_flag, multiply_smooth)
-- 
2.43.0


From 888903bf599b516580d7604310683f301e5d8fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:52 +0000
Subject: [PATCH 33/57] fix: correlated distributions with discrete lines can
 be exported to HDF5

---
 ASAPy/data/correlated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/correlated.py b/ASAPy/data/correlated.py
index 5b2d145..475e3d2 100644
--- a/ASAPy/data/correlated.py
+++ b/ASAPy/data/correlated.py
@@ -118,7 +118,7 @@ class CorrelatedAngleEnergy(AngleEnergy):
                                                  self.interpolation))
 
         # Determine total number of (E,p) pairs and create array
-        n_tuple = sum(len(d.x) for d in self.energy_out)
+        n_tuple = sum(len(d) for d in self.energy_out)
         eout = np.empty((5, n_tuple))
 
         # Make sure all mu data is tabular
-- 
2.43.0


From 918bd02c96ba80efd196db451887db041b806ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:52 +0000
Subject: [PATCH 34/57] fix: the total cross section of data read from HDF5
 includes partial fission (MT 19-21, 38)

---
 ASAPy/data/neutron.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index ef64008..0d5dbc6 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -541,8 +541,9 @@ class IncidentNeutron(EqualityMixin):
                     rx.derived_products.append(Product.from_hdf5(tgroup))
 
         # Build redundant reactions. Start from the highest MT number because
-        # high MTs never depend on lower MTs.
-        for mt_sum in sorted(SUM_RULES, reverse=True):
+        # high MTs never depend on lower MTs, except that MT=27 depends on MT=18.
+        for mt_sum in sorted(SUM_RULES, key=lambda mt: (mt == 18, mt),
+                             reverse=True):
             if mt_sum not in data:
                 rxs = [data[mt] for mt in SUM_RULES[mt_sum] if mt in data]
                 if len(rxs) > 0:
-- 
2.43.0


From 2a6546b6f40e1b1e07537bec8e558e9dca2f1f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:52 +0000
Subject: [PATCH 35/57] fix: neutron data with photons of MT 3 and no
 absorption can be read from ACE

---
 ASAPy/data/neutron.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 0d5dbc6..fa066c7 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -666,12 +666,10 @@ class IncidentNeutron(EqualityMixin):
                 # Determine redundant cross section
                 rx = data._get_redundant_reaction(mt, mts)
                 rx.products += _get_photon_products_ace(ace, rx)
-                if mt == 3:
-                    # ASAPy: instead of summing all the bits, just use the known ACE file absorption xsec
-                    # which is mt=3 from the ace file. This is used because the sum causes round-off error making
-                    # the lazy ASAPy ace replace not work on mt=3
-                    data.reactions[101] = absorption
-                else:
+                # ASAPy: instead of summing all the bits for mt=3, just use the known ACE file absorption xsec
+                # (mt=101 above). This is used because the sum causes round-off error making
+                # the lazy ASAPy ace replace not work on mt=3
+                if mt != 3:
                     data.reactions[mt] = rx
 
         # For transmutation reactions, sometimes only individual levels are
-- 
2.43.0


From 2798220bb04c4da29409fde6de2668c3eeed89cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:52 +0000
Subject: [PATCH 36/57] fix: ThermalScattering.from_ace uses the name it is
 given

---
 ASAPy/data/thermal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/thermal.py b/ASAPy/data/thermal.py
index 0fc40b3..aeb15fc 100644
--- a/ASAPy/data/thermal.py
+++ b/ASAPy/data/thermal.py
@@ -477,7 +477,8 @@ class ThermalScattering(EqualityMixin):
 
         # Get new name that is GND-consistent
         ace_name, xs = ace.name.split('.')
-        name = get_thermal_name(ace_name)
+        if name is None:
+            name = get_thermal_name(ace_name)
 
         # Assign temperature to the running list
         kTs = [ace.temperature*EV_PER_MEV]
-- 
2.43.0


From f92d034ecae2c0cbba98f21295c78a8eba4a830e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:50 +0000
Subject: [PATCH 37/57] fix: WindowedMultipole is evaluated at the upper end of
 its range

---
 ASAPy/data/multipole.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/multipole.py b/ASAPy/data/multipole.py
index e97605c..df32e6b 100644
--- a/ASAPy/data/multipole.py
+++ b/ASAPy/data/multipole.py
@@ -417,7 +417,9 @@ class WindowedMultipole(EqualityMixin):
         # the 1-based vs. 0-based indexing.  Similarly startw needs to be
         # decreased by 1.  endw does not need to be decreased because
         # range(startw, endw) does not include endw.
-        i_window = int(np.floor((sqrtE - sqrt(self.E_min)) / self.spacing))
+        # The upper end of the last window belongs to that window.
+        i_window = min(int(np.floor((sqrtE - sqrt(self.E_min)) / self.spacing)),
+                       self.windows.shape[0] - 1)
         startw = self.windows[i_window, 0] - 1
         endw = self.windows[i_window, 1]
 
-- 
2.43.0


From 5f97efd13bcc85ff3356954590a0d24df9df28d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:01 +0000
Subject: [PATCH 38/57] fix: WindowedMultipole is not cut to integers where the
 first energy is out of range

---
 ASAPy/data/multipole.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/multipole.py b/ASAPy/data/multipole.py
index df32e6b..2fa2f46 100644
--- a/ASAPy/data/multipole.py
+++ b/ASAPy/data/multipole.py
@@ -402,8 +402,8 @@ class WindowedMultipole(EqualityMixin):
 
         """
 
-        if E < self.E_min: return (0, 0, 0)
-        if E > self.E_max: return (0, 0, 0)
+        if E < self.E_min: return (0.0, 0.0, 0.0)
+        if E > self.E_max: return (0.0, 0.0, 0.0)
 
         # ======================================================================
         # Bookkeeping
-- 
2.43.0


From 3c6fc7984203dee972c1755112a2247c6c3a6fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:10 +0000
Subject: [PATCH 39/57] fix: tabulated recoverable and total energies of MF1
 MT458 do not stop FissionEnergyRelease.from_endf

---
 ASAPy/data/fission_energy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ASAPy/data/fission_energy.py b/ASAPy/data/fission_energy.py
index fa9bf15..2cb1543 100644
--- a/ASAPy/data/fission_energy.py
+++ b/ASAPy/data/fission_energy.py
@@ -326,6 +326,10 @@ class FissionEnergyRelease(EqualityMixin):
                 ifc = items[3]
                 name = _NAMES[ifc - 1]
 
+                # Recoverable and total are recalculated here, too
+                if name in ('recoverable', 'total'):
+                    continue
+
                 # Replace value in dictionary
                 functions[name] = eifc
 
-- 
2.43.0


From d6783aff1c48efb5972dab494a5a4fd59360a3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:41 +0000
Subject: [PATCH 40/57] fix: calcium in CaH2 made by NJOY is not named hydrogen
 in CaH2

---
 ASAPy/data/thermal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/thermal.py b/ASAPy/data/thermal.py
index aeb15fc..9ed699b 100644
--- a/ASAPy/data/thermal.py
+++ b/ASAPy/data/thermal.py
@@ -30,7 +30,7 @@ _THERMAL_NAMES = {
     'c_Be_in_BeO': ('bebeo', 'be-beo', 'be-o', 'be/o'),
     'c_C6H6': ('benz', 'c6h6'),
     'c_C_in_SiC': ('csic', 'c-sic'),
-    'c_Ca_in_CaH2': ('cah',),
+    'c_Ca_in_CaH2': ('cah', 'cacah2'),
     'c_D_in_D2O': ('dd2o', 'd-d2o', 'hwtr', 'hw'),
     'c_Fe56': ('fe', 'fe56', 'fe-56'),
     'c_Graphite': ('graph', 'grph', 'gr'),
-- 
2.43.0


From 052cfcbb64876ea0f57232aa8c5365fdd5d9a596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:56 +0000
Subject: [PATCH 41/57] fix: Tabulated1D gives the value of the last point only
 there, not within 1e-5 of it

---
 ASAPy/data/function.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index ecc9ff3..25e5e20 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -204,8 +204,9 @@ class Tabulated1D(Function1D):
 
         # In some cases, x values might be outside the tabulated region due only
         # to precision, so we check if they're close and set them equal if so.
-        y[np.isclose(x, self.x[0], atol=1e-14)] = self.y[0]
-        y[np.isclose(x, self.x[-1], atol=1e-14)] = self.y[-1]
+        # Values within the region are not touched, however close to its ends.
+        y[(x <= self.x[0]) & np.isclose(x, self.x[0], atol=1e-14)] = self.y[0]
+        y[(x >= self.x[-1]) & np.isclose(x, self.x[-1], atol=1e-14)] = self.y[-1]
 
         return y if iterable else y[0]
 
-- 
2.43.0


From bf4cdf484e4e71750153eb8188922d518b84e321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:11 +0000
Subject: [PATCH 42/57] fix: photon cross sections from ACE tables are not NaN
 at and below the threshold

---
 ASAPy/data/photon.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/photon.py b/ASAPy/data/photon.py
index 2596d8a..79409ca 100644
--- a/ASAPy/data/photon.py
+++ b/ASAPy/data/photon.py
@@ -510,7 +510,10 @@ class IncidentPhoton(EqualityMixin):
                 xs = ace.xss[idx : idx+n_energy].copy()
                 nonzero = (xs != 0.0)
                 xs[nonzero] = np.exp(xs[nonzero])
-                rx.xs = Tabulated1D(energy, xs, [n_energy], [5])
+                # Log-log interpolation is possible from the threshold on
+                threshold = np.argmax(nonzero)
+                rx.xs = Tabulated1D(energy[threshold:], xs[threshold:],
+                                    [n_energy - threshold], [5])
                 idx += n_energy
 
                 # Copy binding energy
@@ -909,6 +912,9 @@ class PhotonReaction(EqualityMixin):
         xs = ace.xss[idx : idx+n].copy()
         nonzero = (xs != 0.0)
         xs[nonzero] = np.exp(xs[nonzero])
+        # Replace zeros with a small non-zero value to enable log-log
+        # interpolation
+        xs[~nonzero] = np.exp(-500.0)
         rx.xs = Tabulated1D(energy, xs, [n], [5])
 
         # Get form factors for incoherent/coherent scattering
-- 
2.43.0


From d362095fbe8556becd422cc7da20b4b2c8137d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:31 +0000
Subject: [PATCH 43/57] fix: exported photon data are written and errors of
 writing reported before the export returns

---
 ASAPy/data/photon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ASAPy/data/photon.py b/ASAPy/data/photon.py
index 79409ca..6e2756c 100644
--- a/ASAPy/data/photon.py
+++ b/ASAPy/data/photon.py
@@ -790,6 +790,8 @@ class IncidentPhoton(EqualityMixin):
                                       data=brem['photon_energy'])
             brem_group.create_dataset('dcs', data=brem['dcs'])
 
+        f.close()
+
 
 class PhotonReaction(EqualityMixin):
     """Photon-induced reaction
-- 
2.43.0


From 7037f567423dc8ef3ba6a963cb20efa50499beaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:54 +0000
Subject: [PATCH 44/57] fix: the integral of a linear-log tabulated function
 counts its constant part over the whole interval

---
 ASAPy/data/function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 25e5e20..ca11167 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -296,7 +296,8 @@ class Tabulated1D(Function1D):
                 # Linear-log
                 logx = np.log(x1/x0)
                 m = (y1 - y0)/logx
-                partial_sum[i_low:i_high] = y0 + m*(x1*(logx - 1) + x0)
+                partial_sum[i_low:i_high] = y0*(x1 - x0) + \
+                                            m*(x1*(logx - 1) + x0)
 
             elif self.interpolation[k] == 4:
                 # Log-linear
-- 
2.43.0


From f91e3cb8ed3cdb915e594b5cfcfa5cdaca01defb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:00 +0000
Subject: [PATCH 45/57] fix: photon data can be made after a failed attempt to
 read the Compton profiles or stopping powers

---
 ASAPy/data/photon.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ASAPy/data/photon.py b/ASAPy/data/photon.py
index 6e2756c..26923a0 100644
--- a/ASAPy/data/photon.py
+++ b/ASAPy/data/photon.py
@@ -562,16 +562,18 @@ class IncidentPhoton(EqualityMixin):
         # If Compton profile data hasn't been loaded, do so
         if not _COMPTON_PROFILES:
             filename = os.path.join(os.path.dirname(__file__), 'compton_profiles.h5')
+            profiles = {}
             with h5py.File(filename, 'r') as f:
-                _COMPTON_PROFILES['pz'] = f['pz'][()]
+                profiles['pz'] = f['pz'][()]
                 for i in range(1, 101):
                     group = f['{:03}'.format(i)]
                     num_electrons = group['num_electrons'][()]
                     binding_energy = group['binding_energy'][()]*EV_PER_MEV
                     J = group['J'][()]
-                    _COMPTON_PROFILES[i] = {'num_electrons': num_electrons,
-                                            'binding_energy': binding_energy,
-                                            'J': J}
+                    profiles[i] = {'num_electrons': num_electrons,
+                                   'binding_energy': binding_energy,
+                                   'J': J}
+            _COMPTON_PROFILES.update(profiles)
 
         # Add Compton profile data
         pz = _COMPTON_PROFILES['pz']
@@ -583,18 +585,20 @@ class IncidentPhoton(EqualityMixin):
         # Load stopping power data if it has not yet been loaded
         if not _STOPPING_POWERS:
             filename = os.path.join(os.path.dirname(__file__), 'stopping_powers.h5')
+            powers = {}
             with h5py.File(filename, 'r') as f:
                 # Units are in MeV; convert to eV
-                _STOPPING_POWERS['energy'] = f['energy'][()]*EV_PER_MEV
+                powers['energy'] = f['energy'][()]*EV_PER_MEV
                 for i in range(1, 99):
                     group = f['{:03}'.format(i)]
 
                     # Units are in MeV cm^2/g; convert to eV cm^2/g
-                    _STOPPING_POWERS[i] = {
+                    powers[i] = {
                         'I': group.attrs['I'],
                         's_collision': group['s_collision'][()]*EV_PER_MEV,
                         's_radiative': group['s_radiative'][()]*EV_PER_MEV
                     }
+            _STOPPING_POWERS.update(powers)
 
         # Add stopping power data
         if Z < 99:
-- 
2.43.0


From 2fc5fd38cb99752d79ae132f6d09a09ca6a1ee35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:31 +0000
Subject: [PATCH 46/57] fix: every correlation of an INTG record is read, not
 only the last of a line

---
 ASAPy/data/endf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/endf.py b/ASAPy/data/endf.py
index 65267b3..7f85449 100644
--- a/ASAPy/data/endf.py
+++ b/ASAPy/data/endf.py
@@ -324,9 +324,9 @@ def get_intg_record(file_obj):
                 break
             element = _int_endf(line[11+(ndigit+1)*j:11+(ndigit+1)*(j+1)])
             if element > 0:
-                corr[ii, jj] = (element+0.5)/factor
+                corr[ii, jj+j] = (element+0.5)/factor
             elif element < 0:
-                corr[ii, jj] = (element-0.5)/factor
+                corr[ii, jj+j] = (element-0.5)/factor
 
     # Symmetrize the correlation matrix
     corr = corr + corr.T - np.diag(corr.diagonal())
-- 
2.43.0


From 80ecc66c3781e38eeb090d4ca261594ab17fe386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:31 +0000
Subject: [PATCH 47/57] fix: covariances between parameters in compact format
 are not doubled when sampling

---
 ASAPy/data/resonance_covariance.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 58c01b0..8981a80 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -234,8 +234,9 @@ class ResonanceCovarianceRange:
         parameters = self.parameters
         cov = self.covariance
 
-        # Symmetrizing covariance matrix
-        cov = cov + cov.T - np.diag(cov.diagonal())
+        # Symmetrizing covariance matrix (the compact format gives both
+        # triangles, the others the upper one only)
+        cov = np.triu(cov) + np.triu(cov, 1).T
         formalism = self.formalism
         mpar = self.mpar
         samples = []
-- 
2.43.0


From 53f6c44eb5d6e1b7146d91ab4164ad648f3a4adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:31 +0000
Subject: [PATCH 48/57] fix: Reich-Moore parameters with one fission width can
 be sampled

---
 ASAPy/data/resonance_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 8981a80..d97ed69 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -289,7 +289,7 @@ class ResonanceCovarianceRange:
                 gn = sample[1::mpar]
                 gg = sample[2::mpar]
                 gfa = sample[3::mpar] if mpar > 3 else parameters['fissionWidthA'].values
-                gfb = sample[4::mpar] if mpar > 3 else parameters['fissionWidthB'].values
+                gfb = sample[4::mpar] if mpar > 4 else parameters['fissionWidthB'].values
 
                 records = []
                 for j, E in enumerate(energy):
-- 
2.43.0


From f170c71968493e23837abb209f785532f9a4b7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:17 +0000
Subject: [PATCH 49/57] fix: integrals of log-linear and log-log tabulated
 functions with constant or 1/x intervals are not NaN

---
 ASAPy/data/function.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index ca11167..e1a0a5a 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -301,14 +301,21 @@ class Tabulated1D(Function1D):
 
             elif self.interpolation[k] == 4:
                 # Log-linear
-                m = np.log(y1/y0)/(x1 - x0)
-                partial_sum[i_low:i_high] = y0/m*(np.exp(m*(x1 - x0)) - 1)
+                logy = np.log(y1/y0)
+                logy1 = np.where(logy == 0., 1., logy)
+                partial_sum[i_low:i_high] = y0*(x1 - x0)*np.where(
+                    logy == 0., 1., np.expm1(logy1)/logy1)
 
             elif self.interpolation[k] == 5:
                 # Log-log
-                m = np.log(y1/y0)/np.log(x1/x0)
-                partial_sum[i_low:i_high] = y0/((m + 1)*x0**m)*(
-                    x1**(m + 1) - x0**(m + 1))
+                # (constant where the range starts at x = 0)
+                logx = np.log(np.where(x0 > 0., x1/x0, 1.))
+                z = np.log(y1/y0) + logx
+                z1 = np.where(z == 0., 1., z)
+                partial_sum[i_low:i_high] = np.where(
+                    x0 > 0.,
+                    x0*y0*logx*np.where(z == 0., 1., np.expm1(z1)/z1),
+                    y0*(x1 - x0))
 
             i_low = i_high
 
-- 
2.43.0


From 9e00d2e2d4363eb8ef2d9a96755690bc722afa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:20 +0000
Subject: [PATCH 50/57] fix: the covariance of neutron and capture width in
 compatible format is read

---
 ASAPy/data/resonance_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index d97ed69..046f611 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -468,7 +468,7 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
                     # Populate the coviariance matrix for this resonance
                     # There are no covariances between resonances in lcomp=0
                     cov[cov_index, cov_index] = cov_values[0]
-                    cov[cov_index+1, cov_index+1 : cov_index+2] = cov_values[1:2]
+                    cov[cov_index+1, cov_index+1 : cov_index+3] = cov_values[1:3]
                     cov[cov_index+1, cov_index+3] = cov_values[4]
                     cov[cov_index+2, cov_index+2] = cov_values[3]
                     cov[cov_index+2, cov_index+3] = cov_values[5]
-- 
2.43.0


From 55628028f9e1c55f30a9648323f72c1f5caa3f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:20 +0000
Subject: [PATCH 51/57] fix: covariances in compatible format for several
 l-values can be read

---
 ASAPy/data/resonance_covariance.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 046f611..ba70f3c 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -465,6 +465,10 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
                     cov_values = one_res[6:]
                     records.append(list(res_values))
 
+                    if cov_index > 0:  # Pad matrix for additional values
+                        cov = np.pad(cov, ((0, 4), (0, 4)), 'constant',
+                                     constant_values=0)
+
                     # Populate the coviariance matrix for this resonance
                     # There are no covariances between resonances in lcomp=0
                     cov[cov_index, cov_index] = cov_values[0]
@@ -475,9 +479,6 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
                     cov[cov_index+3, cov_index+3] = cov_values[6]
 
                     cov_index += 4
-                    if j < num_res-1:  # Pad matrix for additional values
-                        cov = np.pad(cov, ((0, 4), (0, 4)), 'constant',
-                                     constant_values=0)
 
         # Create pandas DataFrame with resonance data, currently
         # redundant with data.IncidentNeutron.resonance
-- 
2.43.0


From 5b29b65f623acdea71866d4dfbfafb58774aad7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:20 +0000
Subject: [PATCH 52/57] fix: subsets of resonance parameters keep the
 covariances of their resonances, also if MF=32 has another order than MF=2
 and for subsets of subsets

---
 ASAPy/data/resonance_covariance.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index ba70f3c..76410b2 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -184,15 +184,15 @@ class ResonanceCovarianceRange:
         # Copy range and prevent change of original
         res_cov_range = copy.deepcopy(self)
 
-        parameters = self.file2res.parameters
+        parameters = self.parameters
         cov = res_cov_range.covariance
         mpar = res_cov_range.mpar
         # Create mask
         mask1 = parameters[parameter_str] >= bounds[0]
         mask2 = parameters[parameter_str] <= bounds[1]
         mask = mask1 & mask2
-        res_cov_range.parameters = parameters[mask]
-        indices = res_cov_range.parameters.index.values
+        res_cov_range.parameters = parameters[mask].reset_index(drop=True)
+        indices = np.flatnonzero(mask.values)
         # Build subset of covariance
         sub_cov_dim = len(indices)*mpar
         cov_subset_vals = []
@@ -208,7 +208,11 @@ class ResonanceCovarianceRange:
         tri_indices = np.triu_indices(sub_cov_dim)
         cov_subset[tri_indices] = cov_subset_vals
 
-        res_cov_range.file2res.parameters = parameters[mask]
+        file2params = self.file2res.parameters
+        mask = (file2params[parameter_str] >= bounds[0]) & \
+               (file2params[parameter_str] <= bounds[1])
+        res_cov_range.file2res.parameters = \
+            file2params[mask].reset_index(drop=True)
         res_cov_range.covariance = cov_subset
         return res_cov_range
 
-- 
2.43.0


From 6a63a15a689158953e8afef2c022e1cfd8658ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:20 +0000
Subject: [PATCH 53/57] fix: average fission widths at each energy are numbers,
 not the list of all energies

---
 ASAPy/data/resonance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/resonance.py b/ASAPy/data/resonance.py
index d13012c..dd83aee 100644
--- a/ASAPy/data/resonance.py
+++ b/ASAPy/data/resonance.py
@@ -1022,7 +1022,7 @@ class Unresolved(ResonanceRange):
                     gg = values[4]
                     gf = values[6:]
                     for k, gf_i in enumerate(gf):
-                        records[k].append([l, j, d, amun, gn0, gg, gf])
+                        records[k].append([l, j, d, amun, gn0, gg, gf_i])
             parameters = [pd.DataFrame(r, columns=columns) for r in records]
 
         elif formalism == 2:
-- 
2.43.0


From d446d7c600474035312bcb29702d7318a0f086aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:33 +0000
Subject: [PATCH 54/57] fix: covariances given in several blocks are all kept

---
 ASAPy/data/resonance_covariance.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 76410b2..5d779c8 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -397,6 +397,7 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
 
             # Read resonance widths, J values, etc
             records = []
+            cov = np.zeros([0, 0])
             for i in range(num_short_range):
                 items, values = endf.get_list_record(file_obj)
                 mpar = items[2]
@@ -416,11 +417,14 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
                     records.append([energy[i], spin[i], gt[i], gn[i],
                                     gg[i], gf[i]])
 
-                # Build the upper-triangular covariance matrix
+                # Build the upper-triangular covariance matrix of these
+                # resonances, after those of the blocks before
+                start = cov.shape[0]
                 cov_dim = mpar*num_res
-                cov = np.zeros([cov_dim, cov_dim])
+                cov = np.pad(cov, ((0, cov_dim), (0, cov_dim)), 'constant',
+                             constant_values=0)
                 indices = np.triu_indices(cov_dim)
-                cov[indices] = cov_values
+                cov[start:, start:][indices] = cov_values
 
         # Compact format - Resonances and individual uncertainties followed by
         # compact correlations
@@ -634,6 +638,7 @@ class ReichMooreCovariance(ResonanceCovarianceRange):
             channel_radius = {}
             scattering_radius = {}
             records = []
+            cov = np.zeros([0, 0])
             for i in range(num_short_range):
                 items, values = endf.get_list_record(file_obj)
                 mpar = items[2]
@@ -653,11 +658,14 @@ class ReichMooreCovariance(ResonanceCovarianceRange):
                     records.append([energy[i], spin[i], gn[i], gg[i],
                                     gfa[i], gfb[i]])
 
-                # Build the upper-triangular covariance matrix
+                # Build the upper-triangular covariance matrix of these
+                # resonances, after those of the blocks before
+                start = cov.shape[0]
                 cov_dim = mpar*num_res
-                cov = np.zeros([cov_dim, cov_dim])
+                cov = np.pad(cov, ((0, cov_dim), (0, cov_dim)), 'constant',
+                             constant_values=0)
                 indices = np.triu_indices(cov_dim)
-                cov[indices] = cov_values
+                cov[start:, start:][indices] = cov_values
 
         # Compact format - Resonances and individual uncertainties followed by
         # compact correlations
-- 
2.43.0


From 5f509d440b003e81cc20321d7e1ebe30c5296c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:08 +0000
Subject: [PATCH 55/57] fix: atomic masses can be had after a failed attempt to
 read their table

---
 ASAPy/data/data.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ASAPy/data/data.py b/ASAPy/data/data.py
index 90d5903..900ba71 100644
--- a/ASAPy/data/data.py
+++ b/ASAPy/data/data.py
@@ -158,6 +158,7 @@ def atomic_mass(isotope):
     if not _ATOMIC_MASS:
 
         # Load data from AME2012 file
+        masses = {}
         mass_file = os.path.join(os.path.dirname(__file__), 'mass.mas12')
         with open(mass_file, 'r') as ame:
             # Read lines in file starting at line 40
@@ -165,7 +166,7 @@ def atomic_mass(isotope):
                 name = '{}{}'.format(line[20:22].strip(), int(line[16:19]))
                 mass = float(line[96:99]) + 1e-6*float(
                     line[100:106] + '.' + line[107:112])
-                _ATOMIC_MASS[name.lower()] = mass
+                masses[name.lower()] = mass
 
         # For isotopes found in some libraries that represent all natural
         # isotopes of their element (e.g. C0), calculate the atomic mass as
@@ -173,11 +174,11 @@ def atomic_mass(isotope):
         # that make up the element.
         for element in ['C', 'Zn', 'Pt', 'Os', 'Tl']:
             isotope_zero = element.lower() + '0'
-            _ATOMIC_MASS[isotope_zero] = 0.
+            masses[isotope_zero] = 0.
             for iso, abundance in NATURAL_ABUNDANCE.items():
                 if re.match(r'{}\d+'.format(element), iso):
-                    _ATOMIC_MASS[isotope_zero] += abundance * \
-                                                  _ATOMIC_MASS[iso.lower()]
+                    masses[isotope_zero] += abundance * masses[iso.lower()]
+        _ATOMIC_MASS.update(masses)
 
     # Get rid of metastable information
     if '_' in isotope:
-- 
2.43.0


From f379b8c423bed5e5e4c3442139c5719ed43ee6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:24 +0000
Subject: [PATCH 56/57] fix: decays of unknown origin (RTYP=10) are not called
 beta- and gamma decays

---
 ASAPy/data/decay.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ASAPy/data/decay.py b/ASAPy/data/decay.py
index 9373c2b..4422d03 100644
--- a/ASAPy/data/decay.py
+++ b/ASAPy/data/decay.py
@@ -59,6 +59,8 @@ def get_decay_modes(value):
         List of successive decays, e.g. ('beta-', 'neutron')
 
     """
+    if int(value) == 10:
+        return [_DECAY_MODES[10][0]]
     return [_DECAY_MODES[int(x)][0] for x in
             str(value).strip('0').replace('.', '')]
 
-- 
2.43.0


From eeefb8b78d7d189a0c75aa9255c049c730ad0981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:36 +0000
Subject: [PATCH 57/57] fix: covariances of continuous decay spectra can be
 looked at more than once

---
 ASAPy/data/decay.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/decay.py b/ASAPy/data/decay.py
index 4422d03..8cd630d 100644
--- a/ASAPy/data/decay.py
+++ b/ASAPy/data/decay.py
@@ -444,7 +444,8 @@ class Decay(EqualityMixin):
                     if LCOV != 0:
                         items, values = get_list_record(file_obj)
                         ci['covariance_lb'] = items[3]
-                        ci['covariance'] = zip(values[0::2], values[1::2])
+                        ci['covariance'] = list(zip(values[0::2],
+                                                    values[1::2]))
 
                     spectrum['continuous'] = ci
 
-- 
2.43.0

