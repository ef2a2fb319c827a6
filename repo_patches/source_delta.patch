From 872fcaf7b4f56eff5e8443a7de132637c6021437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:08 +0000
Subject: [PATCH 01/18] fix: continue the warm-up where an interrupted run left
 it

Resuming from a checkpoint written during the warm-up restarted it from the
first batch of prior samples, so the batches already in the history were
evaluated and counted twice.
---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 7c7f2ff..a053f96 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -440,7 +440,7 @@ class Sampler:
             self.scaler.fit(self.prior_samples)
 
         if self.warmup:
-            for i in range(self.n_prior//self.n_active):
+            for i in range(self.t, self.n_prior//self.n_active):
                 if save_every is not None:
                     if (self.t - t0) % int(save_every) == 0 and self.t != t0:
                         self.save_state(Path(self.output_dir) / f'{self.output_label}_{self.t}.state')
-- 
2.43.0


From f0c76dcee9d6af1fccd4237a5bdaba93ff68b19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:08 +0000
Subject: [PATCH 02/18] fix: allow resuming from a state saved before the first
 iteration

The progress bar was initialised from the last iteration without checking
that there is one, so run(resume_state_path=...) raised IndexError.
---
 pocomc/sampler.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index a053f96..581a11e 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -407,14 +407,15 @@ class Sampler:
             t0 = self.t
             # Initialise progress bar
             self.pbar = ProgressBar(self.progress, initial=t0)
-            self.pbar.update_stats(dict(beta=self.particles.get("beta", -1),
-                                        calls=self.particles.get("calls", -1),
-                                        ESS=self.particles.get("ess", -1),
-                                        logZ=self.particles.get("logz", -1),
-                                        logP=np.mean(self.particles.get("logp", -1)+self.particles.get("logl", -1)),
-                                        acc=self.particles.get("accept", -1),
-                                        steps=self.particles.get("steps", -1),
-                                        eff=self.particles.get("efficiency", -1)))
+            if len(self.particles.get("beta")) > 0:
+                self.pbar.update_stats(dict(beta=self.particles.get("beta", -1),
+                                            calls=self.particles.get("calls", -1),
+                                            ESS=self.particles.get("ess", -1),
+                                            logZ=self.particles.get("logz", -1),
+                                            logP=np.mean(self.particles.get("logp", -1)+self.particles.get("logl", -1)),
+                                            acc=self.particles.get("accept", -1),
+                                            steps=self.particles.get("steps", -1),
+                                            eff=self.particles.get("efficiency", -1)))
         else:
             t0 = self.t
             # Run parameters
-- 
2.43.0


From d159f01c2837d65e013e823d05403da2343c472d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:08 +0000
Subject: [PATCH 03/18] fix: do not return stale results after a run is
 continued

The results dictionary was computed once and cached for ever, so results
requested before continuing a run (or from a checkpoint taken after such a
request) hid every later iteration.
---
 pocomc/particles.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pocomc/particles.py b/pocomc/particles.py
index b96656c..e08969c 100644
--- a/pocomc/particles.py
+++ b/pocomc/particles.py
@@ -288,15 +288,14 @@ class Particles:
         >>> particles.compute_results().keys()
         dict_keys(['u', 'logdetj', 'logl', 'logp', 'logw', 'blobs', 'iter', 'logz', 'calls', 'steps', 'efficiency', 'ess', 'accept', 'beta'])
         """
-        if self.results_dict is None:
-            self.results_dict = dict()
-            for key in self.past.keys():
-                self.results_dict[key] = self.get(key)
+        results_dict = dict()
+        for key in self.past.keys():
+            results_dict[key] = self.get(key)
 
-            logw, _ = self.compute_logw_and_logz(1.0)
+        logw, _ = self.compute_logw_and_logz(1.0)
 
-            self.results_dict["logw"] = logw
-            #self.results_dict["ess"] = np.exp(log_ess)
+        results_dict["logw"] = logw
+        #results_dict["ess"] = np.exp(log_ess)
 
-        return self.results_dict
+        return results_dict
 
-- 
2.43.0


From e54a892b8b3922ea0c07d14c093a90f2df3415b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:08 +0000
Subject: [PATCH 04/18] fix: record the iteration index of every iteration

The index was only set during the warm-up, so all later iterations were
recorded with the index of the last warm-up batch.
---
 pocomc/sampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 581a11e..4ea6825 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -730,6 +730,7 @@ class Sampler:
             Dictionary containing the updated particles.
         """
         # Update iteration index
+        current_particles["iter"] = self.t
         self.t += 1
         self.pbar.update_iter()
 
-- 
2.43.0


From 6d6934b3d9009eb5edbc565e8dee9469e4ec9fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:08 +0000
Subject: [PATCH 05/18] fix: keep counting evidence likelihood calls when a run
 is continued

The calls spent on the evidence estimate were dropped from the counter by
the first iteration of a continued run.
---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 4ea6825..158f94e 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -627,7 +627,7 @@ class Sampler:
         current_particles["efficiency"] = results.get('efficiency') / (2.38 / self.n_dim ** 0.5)
         current_particles["steps"] = results.get('steps')
         current_particles["accept"] = results.get('accept')
-        current_particles["calls"] = current_particles.get("calls") + results.get('calls')
+        current_particles["calls"] = self.calls + results.get('calls')
         self.calls = current_particles.get("calls")
         self.proposal_scale = results.get('proposal_scale')
 
-- 
2.43.0


From 749356159dcaa59b137385ef140f309c5ed80d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:08 +0000
Subject: [PATCH 06/18] fix: support blobs stored as Python objects (e.g.
 strings)

Elements of an object array have no dtype, so the documented string blobs
raised AttributeError in the first MCMC step.
---
 pocomc/mcmc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pocomc/mcmc.py b/pocomc/mcmc.py
index 2455f26..1e20a30 100644
--- a/pocomc/mcmc.py
+++ b/pocomc/mcmc.py
@@ -111,7 +111,7 @@ def preconditioned_pcn(state_dict: dict,
         # Evaluate likelihood
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty_like(blobs)
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
@@ -279,7 +279,7 @@ def preconditioned_rwm(state_dict: dict,
         # Compute log-likelihood, log-prior, and log-posterior
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty_like(blobs)
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
@@ -440,7 +440,7 @@ def pcn(state_dict: dict,
         # Evaluate likelihood
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty_like(blobs)
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
@@ -594,7 +594,7 @@ def rwm(state_dict: dict,
         # Evaluate likelihood
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty_like(blobs)
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
-- 
2.43.0


From 723155d0836ef71c44b38b31ce4265a261612345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:08 +0000
Subject: [PATCH 07/18] fix: treat NaN likelihood values as zero likelihood
 everywhere

The MCMC kernels already reject proposals with a NaN likelihood, but a NaN
among the prior samples made the run crash and a NaN in the evidence stage
made the evidence NaN.
---
 pocomc/sampler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 158f94e..23c49d2 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -823,7 +823,8 @@ class Sampler:
             Additional data (default is ``None``).
         """
         if self.vectorize:
-            return self.log_likelihood(x), None
+            logl = self.log_likelihood(x)
+            return np.where(np.isnan(logl), -np.inf, logl), None
         elif self.pool is not None:
             results = list(self.distribute(self.log_likelihood, x))
         else:
@@ -860,6 +861,9 @@ class Sampler:
                 if len(axes):
                     blob = np.squeeze(blob, tuple(axes))
 
+        # Treat undefined likelihood values as zero likelihood
+        logl[np.isnan(logl)] = -np.inf
+
         return logl, blob
         
     def evidence(self):
-- 
2.43.0


From 46fe3a6fe2c935e3e8a342e3fd4fc9c7a9e99fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:08 +0000
Subject: [PATCH 08/18] fix: count importance samples outside the prior support
 in the evidence

Samples of the flow with zero prior density were dropped and the average
was taken over the remaining ones, which overestimates the evidence of
priors whose support does not fill their bounds.
---
 pocomc/sampler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 23c49d2..a06c13d 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -912,13 +912,16 @@ class Sampler:
         # compute log weights
         logw = logl + logp + logdetj - logq 
 
+        # samples outside of the prior support have zero weight but do count
+        logw = np.concatenate([logw, np.full(n - len(logw), -np.inf)])
+
         # compute log evidence
         logz = np.logaddexp.reduce(logw) - np.log(len(logw))
 
         # compute error on log evidence
         dlogz = np.std([np.logaddexp.reduce(logw[np.random.choice(len(logw), len(logw))]) - np.log(len(logw)) for _ in range(np.maximum(n,1000))])
 
-        self.calls += len(logw)
+        self.calls += len(logl)
         self.pbar.update_stats(dict(calls=self.calls))
 
         self.logz = logz
-- 
2.43.0


From 6547c9a7d107bcf6cfcd6603305c96b29f77878c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:08 +0000
Subject: [PATCH 09/18] fix: create missing parents of the output directory

A nested output directory made the run fail at its first checkpoint.
---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index a06c13d..8b2a7b8 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -1038,7 +1038,7 @@ class Sampler:
             Path to save state.
         """
         print(f'Saving PMC state to {path}')
-        Path(path).parent.mkdir(exist_ok=True)
+        Path(path).parent.mkdir(parents=True, exist_ok=True)
         temp_path = Path(path).with_suffix('.temp')
         with open(temp_path, 'wb') as f:
             state = self.__dict__.copy()
-- 
2.43.0


From 9994ae455acf35c4dca54a297475c68edb390b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:46 +0000
Subject: [PATCH 10/18] fix: raise on the MPI master when a task fails on a
 worker

A worker whose task raised left its loop without replying, and the master
waited for that reply for ever.
---
 pocomc/parallel.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/pocomc/parallel.py b/pocomc/parallel.py
index 19a0511..e4bbf65 100644
--- a/pocomc/parallel.py
+++ b/pocomc/parallel.py
@@ -1,5 +1,6 @@
 import sys
 import atexit
+import traceback
 
 MPI = None
 
@@ -17,6 +18,12 @@ def _import_mpi(use_dill=False):
     return MPI
 
 
+class _TaskError:
+    """Reply of a worker whose task raised an exception."""
+    def __init__(self, message):
+        self.message = message
+
+
 class MPIPool:
     r"""A processing pool that distributes tasks using MPI.
     With this pool class, the master process distributes tasks to worker
@@ -85,7 +92,11 @@ class MPIPool:
                 break
 
             func, arg = task
-            result = func(arg)
+            try:
+                result = func(arg)
+            except Exception:
+                # Let the master raise instead of waiting for a dead worker
+                result = _TaskError(traceback.format_exc())
             # Worker is sending answer with tag
             self.comm.ssend(result, self.master, status.tag)
 
@@ -123,6 +134,7 @@ class MPIPool:
         tasklist = [(tid, (worker, arg)) for tid, arg in enumerate(tasks)]
         resultlist = [None] * len(tasklist)
         pending = len(tasklist)
+        error = None
 
         while pending:
             if workerset and tasklist:
@@ -150,6 +162,15 @@ class MPIPool:
             resultlist[taskid] = result
             pending -= 1
 
+            if isinstance(result, _TaskError):
+                # Start no more tasks but collect the ones already sent
+                error = result
+                pending -= len(tasklist)
+                tasklist = []
+
+        if error is not None:
+            raise RuntimeError(f"A task failed on an MPI worker:\n{error.message}")
+
         return resultlist
 
 
-- 
2.43.0


From 346233792ec821c958d30ba3634fb962d167fc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:35 +0000
Subject: [PATCH 11/18] fix: do not let checkpoints share or overwrite each
 other's temporary file

The temporary file was the checkpoint path with its suffix replaced, so a
checkpoint named *.temp was overwritten in place and two checkpoints that
differ only in their suffix shared one temporary file.
---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 8b2a7b8..842393b 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -1039,7 +1039,7 @@ class Sampler:
         """
         print(f'Saving PMC state to {path}')
         Path(path).parent.mkdir(parents=True, exist_ok=True)
-        temp_path = Path(path).with_suffix('.temp')
+        temp_path = Path(f'{path}.temp')
         with open(temp_path, 'wb') as f:
             state = self.__dict__.copy()
             del state['pbar']  # Cannot be pickled
-- 
2.43.0


From a46f90e3452b1a152c19e158d2a33e44b29f158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:35 +0000
Subject: [PATCH 12/18] fix: do not fail when all proposals are outside the
 prior support

---
 pocomc/sampler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 842393b..d5e4ba2 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -822,6 +822,11 @@ class Sampler:
         blob : array_like
             Additional data (default is ``None``).
         """
+        if len(x) == 0:
+            # Nothing to evaluate (e.g. all proposals are outside of the prior support)
+            blob = self.particles.get("blobs", index=-1)[:0] if self.have_blobs else None
+            return np.empty(0), blob
+
         if self.vectorize:
             logl = self.log_likelihood(x)
             return np.where(np.isnan(logl), -np.inf, logl), None
-- 
2.43.0


From 644f998eb540534973e673d974086b63732f0faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:08 +0000
Subject: [PATCH 13/18] fix: do not stop below temperature one after an aborted
 iteration

---
 pocomc/sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index d5e4ba2..f33bc11 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -545,7 +545,8 @@ class Sampler:
         elif self.metric == 'uss':
             ess = unique_sample_size(weights)
 
-        return 1.0 - current_particles.get("beta") >= 1e-4 or ess < self.n_total
+        # Only completed iterations count (the current one may have been aborted by an error)
+        return 1.0 - self.particles.get("beta", index=-1) >= 1e-4 or ess < self.n_total
 
     
     def _mutate(self, current_particles):
-- 
2.43.0


From f17879aa5ecc1a1dc4b1ec5863566fb2e6232ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:41 +0000
Subject: [PATCH 14/18] fix: do not fail when trimming has to keep all samples

---
 pocomc/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pocomc/tools.py b/pocomc/tools.py
index 1d0c872..f68e6e4 100644
--- a/pocomc/tools.py
+++ b/pocomc/tools.py
@@ -46,7 +46,8 @@ def trim_weights(samples, weights, ess=0.99, bins=1000):
         weights_trimmed = weights[mask]
         weights_trimmed /= np.sum(weights_trimmed)
         ess_trimmed = 1.0 / np.sum(weights_trimmed**2.0)
-        if ess_trimmed / ess_total >= ess:
+        # at i=0 all samples are kept
+        if ess_trimmed / ess_total >= ess or i == 0:
             break 
         i -= 1
     
-- 
2.43.0


From 4cb7a61abb7a72e278244f6c15da1c86da3f55e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:10 +0000
Subject: [PATCH 15/18] fix: account for zero-likelihood prior mass in the
 evidence

---
 pocomc/sampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index f33bc11..182189a 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -455,6 +455,8 @@ class Sampler:
 
                 # Resample prior particles with infinite likelihoods
                 inf_logl_mask = np.isinf(logl)
+                # Fraction of the prior with non-zero likelihood
+                logz = np.log(np.mean(~inf_logl_mask))
                 if np.any(inf_logl_mask):
                     all_idx = np.arange(len(x))
                     infinite_idx = all_idx[inf_logl_mask]
@@ -471,7 +473,7 @@ class Sampler:
                 self.current_particles = dict(u=u,x=x,logl=logl,logp=logp,logdetj=logdetj,
                                     logw=-1e300 * np.ones(self.n_active), blobs=blobs, iter=self.t,
                                     calls=self.calls, steps=1, efficiency=1.0, ess=self.n_effective, 
-                                    accept=1.0, beta=0.0, logz=0.0)
+                                    accept=1.0, beta=0.0, logz=logz)
                 
                 self.particles.update(self.current_particles)
 
-- 
2.43.0


From 1cf3fdbe2700d47e36464b51dbcceea4aa82bd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:21 +0000
Subject: [PATCH 16/18] fix: do not hang when an MPI task or result cannot be
 transferred

---
 pocomc/parallel.py | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/pocomc/parallel.py b/pocomc/parallel.py
index e4bbf65..5f77c27 100644
--- a/pocomc/parallel.py
+++ b/pocomc/parallel.py
@@ -85,20 +85,24 @@ class MPIPool:
 
         status = MPI.Status()
         while True:
-            task = self.comm.recv(source=self.master, tag=MPI.ANY_TAG, status=status)
+            try:
+                task = self.comm.recv(source=self.master, tag=MPI.ANY_TAG, status=status)
 
-            if task is None:
-                # Worker told to quit work
-                break
+                if task is None:
+                    # Worker told to quit work
+                    break
 
-            func, arg = task
-            try:
+                func, arg = task
                 result = func(arg)
             except Exception:
                 # Let the master raise instead of waiting for a dead worker
                 result = _TaskError(traceback.format_exc())
             # Worker is sending answer with tag
-            self.comm.ssend(result, self.master, status.tag)
+            try:
+                self.comm.ssend(result, self.master, status.tag)
+            except Exception:
+                # The result cannot be serialised
+                self.comm.ssend(_TaskError(traceback.format_exc()), self.master, status.tag)
 
 
     def map(self, worker, tasks):
@@ -141,7 +145,15 @@ class MPIPool:
                 worker = workerset.pop()
                 taskid, task = tasklist.pop()
                 # "Sent task %s to worker %s with tag %s"
-                self.comm.send(task, dest=worker, tag=taskid)
+                try:
+                    self.comm.send(task, dest=worker, tag=taskid)
+                except Exception as e:
+                    # Start no more tasks but collect the ones already sent
+                    workerset.add(worker)
+                    error = e
+                    pending -= len(tasklist) + 1
+                    tasklist = []
+                    continue
 
             if tasklist:
                 flag = self.comm.Iprobe(source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG)
@@ -151,8 +163,12 @@ class MPIPool:
                 self.comm.Probe(source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG)
 
             status = MPI.Status()
-            result = self.comm.recv(source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG,
-                                    status=status)
+            try:
+                result = self.comm.recv(source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG,
+                                        status=status)
+            except Exception:
+                # The result cannot be rebuilt on the master
+                result = _TaskError(traceback.format_exc())
             worker = status.source
             taskid = status.tag
 
@@ -164,12 +180,12 @@ class MPIPool:
 
             if isinstance(result, _TaskError):
                 # Start no more tasks but collect the ones already sent
-                error = result
+                error = RuntimeError(f"A task failed on an MPI worker:\n{result.message}")
                 pending -= len(tasklist)
                 tasklist = []
 
         if error is not None:
-            raise RuntimeError(f"A task failed on an MPI worker:\n{error.message}")
+            raise error
 
         return resultlist
 
-- 
2.43.0


From 5ecaad4a2e24c2ae9148728162b188daab4c333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:02 +0000
Subject: [PATCH 17/18] fix: make flow regularization work with zuko's composed
 transforms

---
 pocomc/flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/flow.py b/pocomc/flow.py
index ec4e00b..d4b57fc 100644
--- a/pocomc/flow.py
+++ b/pocomc/flow.py
@@ -404,7 +404,7 @@ def regularization_loss(model, laplace_scale=None, gaussian_scale=None):
     total_laplace = 0.0
     total_gaussian = 0.0
 
-    for i, transform in enumerate(model.transforms):
+    for i, transform in enumerate(getattr(model.transform, "transforms", [model.transform])):
         if hasattr(transform, "hyper"):
             for parameter_name, parameter in transform.hyper.named_parameters():
                 if parameter_name.endswith('weight'):
-- 
2.43.0


From 405b99a144b490b4aa59a24486a721affab3bdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:55 +0000
Subject: [PATCH 18/18] fix: do not overwrite draws and densities stored in the
 user's prior

---
 pocomc/sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 182189a..8606151 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -446,10 +446,10 @@ class Sampler:
                     if (self.t - t0) % int(save_every) == 0 and self.t != t0:
                         self.save_state(Path(self.output_dir) / f'{self.output_label}_{self.t}.state')
                 # Set state parameters
-                x = self.prior_samples[i*self.n_active:(i+1)*self.n_active]
+                x = self.prior_samples[i*self.n_active:(i+1)*self.n_active].copy()
                 u = self.scaler.forward(x)
                 logdetj = self.scaler.inverse(u)[1]
-                logp = self.log_prior(x)
+                logp = np.array(self.log_prior(x))
                 logl, blobs = self._log_like(x)
                 self.calls += self.n_active
 
-- 
2.43.0

