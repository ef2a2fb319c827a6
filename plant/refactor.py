"""Behaviour-preserving rewrites of /repo on which every check has to stay quiet.
refactor.py [-p C01,C02] [names...]: apply each (or 'all' together) to a scratch copy, run the repository's tests, then the checks."""
import os, sys, subprocess, shutil, tempfile, time, re
S, K, P, Q, T, C, F, R, G = ["pocomc/%s.py" % n for n in ("sampler", "mcmc", "parallel", "particles", "tools", "scaler", "flow", "prior", "geometry")]
L = {}


def rf(name, *edits):
    L[name] = edits


SAVE_OLD = """        temp_path = Path(f'{path}.temp')
        with open(temp_path, 'wb') as f:
            state = self.__dict__.copy()
            del state['pbar']  # Cannot be pickled
            try:
                # deal with pool
                if state['pool'] is not None:
                    del state['pool']  # remove pool
                    del state['distribute']  # remove `pool.map` function hook
            except BaseException as e:
                print(e)

            dill.dump(file=f, obj=state)
            f.flush()
            os.fsync(f.fileno())

        os.rename(temp_path, path)
"""
rf("save-bytes", (S, SAVE_OLD, """        excluded = {'pbar'}
        if self.pool is not None:
            excluded |= {'pool', 'distribute'}
        payload = memoryview(dill.dumps({k: v for k, v in self.__dict__.items() if k not in excluded}))
        temp_path = str(path) + '.temp'
        fd = os.open(temp_path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        try:
            while len(payload):
                payload = payload[os.write(fd, payload):]
            os.fsync(fd)
        finally:
            os.close(fd)
        os.replace(temp_path, path)
"""))
rf("save-tempfile", (S, SAVE_OLD, """        state = self.__dict__.copy()
        state.pop('pbar')
        if state['pool'] is not None:
            state.pop('pool')
            state.pop('distribute')
        import tempfile
        fd, temp_path = tempfile.mkstemp(dir=Path(path).parent, prefix=Path(path).name, suffix='.temp')
        try:
            with os.fdopen(fd, 'wb') as f:
                f.write(dill.dumps(state))
                f.flush()
                os.fsync(f.fileno())
            os.replace(temp_path, path)
        except BaseException:
            os.unlink(temp_path)
            raise
"""))
rf("save-cleanup", (S, SAVE_OLD, """        temp_path = Path(path).with_name(Path(path).name + '.temp')
        state = self.__getstate__()
        state.pop('pbar', None)
        try:
            with temp_path.open('wb') as f:
                dill.dump(state, f)
                f.flush()
                os.fsync(f.fileno())
            temp_path.rename(path)
        except BaseException:
            temp_path.unlink(missing_ok=True)
            raise
"""))
rf("load-update", (S, """        with open(path, 'rb') as f:
            state = dill.load(file=f)
        self.__dict__ = {**self.__dict__, **state}
""", """        raw = Path(path).read_bytes()
        for name, value in dill.loads(raw).items():
            setattr(self, name, value)
"""))
MASTER_OLD = open("/repo/" + P).read()
MASTER_OLD = MASTER_OLD[MASTER_OLD.index("        workerset = self.workers.copy()"):MASTER_OLD.index("        if error is not None:\n            raise error")]
rf("mpi-queue", (P, MASTER_OLD, """        from collections import deque
        idle = deque(sorted(self.workers))
        tasklist = deque(enumerate(tasks))
        resultlist = [None] * len(tasklist)
        running = 0
        error = None
        status = MPI.Status()

        while tasklist or running:
            # Hand out as much as possible, first task first
            while idle and tasklist:
                taskid, arg = tasklist.popleft()
                try:
                    self.comm.send((worker, arg), dest=idle[0], tag=taskid)
                except Exception as e:
                    error = e
                    tasklist.clear()
                    break
                idle.popleft()
                running += 1
            if not running:
                break
            # Wait for any answer
            try:
                result = self.comm.recv(source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG, status=status)
            except Exception:
                result = _TaskError(traceback.format_exc())
            running -= 1
            idle.append(status.source)
            resultlist[status.tag] = result
            if isinstance(result, _TaskError):
                error = RuntimeError(f"A task failed on an MPI worker:\\n{result.message}")
                tasklist.clear()

"""))
rf("mpi-close", (P, """        for worker in self.workers:
            self.comm.send(None, worker, 0)
""", """        requests = [self.comm.isend(None, dest=worker, tag=0) for worker in sorted(self.workers)]
        for request in requests:
            request.wait()
"""), (P, "        if not self.is_master():\n            # workers branch here and wait for work\n            self.wait()\n            sys.exit(0)\n", "        if self.is_worker():\n            self.wait()\n            raise SystemExit(0)\n"))
rf("kernels-vectorised", (K, """        for k in range(n_walkers):
            s[k] = 1./np.random.gamma((n_dim + nu) / 2, 2.0/(nu + np.dot(diff[k],np.dot(inv_cov,diff[k]))))
""", """        s = 1. / np.random.gamma((n_dim + nu) / 2, 2.0 / (nu + np.einsum('ki,ij,kj->k', diff, inv_cov, diff)))
""", "all"), (K, """        for k in range(n_walkers):
            A[k] = -(n_dim+nu)/2*np.log(1+np.dot(diff_prime[k],np.dot(inv_cov,diff_prime[k]))/nu)
            B[k] = -(n_dim+nu)/2*np.log(1+np.dot(diff[k],np.dot(inv_cov,diff[k]))/nu)
""", """        A = -(n_dim+nu)/2*np.log1p(np.einsum('ki,ij,kj->k', diff_prime, inv_cov, diff_prime)/nu)
        B = -(n_dim+nu)/2*np.log1p(np.einsum('ki,ij,kj->k', diff, inv_cov, diff)/nu)
""", "all"), (K, """        for k in range(n_walkers):
            u_prime[k] = u[k] + sigma * np.dot(chol, np.random.randn(n_dim))
""", """        u_prime[:] = u + sigma * np.random.standard_normal((n_walkers, n_dim)) @ chol.T
"""), (K, """        for k in range(n_walkers):
            theta_prime[k] = theta[k] + sigma * np.dot(chol, np.random.randn(n_dim))
""", """        theta_prime[:] = theta + sigma * np.random.standard_normal((n_walkers, n_dim)) @ chol.T
"""), (K, """        for k in range(n_walkers):
            theta_prime[k] = mu + (1.0 - sigma ** 2.0) ** 0.5 * diff[k] + sigma * np.sqrt(s[k]) * np.dot(chol_cov, np.random.randn(n_dim))      
""", """        noise = np.random.standard_normal((n_walkers, n_dim)) @ chol_cov.T
        theta_prime[:] = mu + np.sqrt(1.0 - sigma ** 2.0) * diff + sigma * np.sqrt(s)[:, None] * noise
"""))
rf("kernels-stream", (K, "        u_rand = np.random.rand(n_walkers)\n        mask = u_rand < alpha\n", "        mask = np.log(1.0 - np.random.rand(n_walkers)[::-1]) < np.log(np.maximum(alpha, 1e-300))\n", "all"),
   (K, "1./np.random.gamma((n_dim + nu) / 2, 2.0/(nu + np.dot(diff[k],np.dot(inv_cov,diff[k]))))", "0.5 * (nu + np.dot(diff[k],np.dot(inv_cov,diff[k]))) / np.random.standard_gamma((n_dim + nu) / 2)", "all"),
   (S, "            idx_resampled = np.random.choice(np.arange(len(weights)), size=self.n_active, replace=True, p=weights)\n        elif", "            idx_resampled = np.repeat(np.arange(len(weights)), np.random.multinomial(self.n_active, weights / np.sum(weights, dtype=float)))\n        elif"))
rf("systematic-search", (T, """    j = 0
    cumulative_sum = weights[0]
    indeces = np.empty(size, dtype=int)
    for i in range(size):
        while positions[i] > cumulative_sum:
            j += 1
            cumulative_sum += weights[j]
        indeces[i] = j
""", """    edges = np.cumsum(weights)
    indeces = np.minimum(np.searchsorted(edges, positions, side='left'), len(weights) - 1)
"""))
rf("particles-logsumexp", (Q, """        A = logl * beta_final
        b = np.array([logl * beta[i] - logz[i] for i in range(len(beta))])
        B = np.logaddexp.reduce(b, axis=0) - np.log(len(beta))
        logw = A - B
        logw = np.concatenate(logw)
        logz_new = np.logaddexp.reduce(logw) - np.log(len(logw))

        if normalize:
            logw -= np.logaddexp.reduce(logw)
""", """        from scipy.special import logsumexp
        mixture = np.full(logl.shape, -np.inf)
        for b, z in zip(beta, logz):
            mixture = np.logaddexp(mixture, b * logl - z)
        logw = (beta_final * logl - mixture + np.log(len(beta))).ravel()
        total = logsumexp(logw)
        logz_new = total - np.log(logw.size)

        if normalize:
            logw = logw - total
"""), (Q, """        for key in data.keys():
            if key in self.past.keys():
                value = data.get(key)
                # Save to past states
                self.past.get(key).append(value)
""", """        for key, history in self.past.items():
            if key in data:
                value = data[key]
                history.append(np.array(value) if isinstance(value, np.ndarray) else value)
"""), (Q, """        results_dict = dict()
        for key in self.past.keys():
            results_dict[key] = self.get(key)
""", """        results_dict = {key: self.get(key) for key in self.past}
"""))
rf("reweight-helper", (S, """        weights_prev, ess_est_prev = get_weights_and_ess(beta_prev)
        weights_max, ess_est_max = get_weights_and_ess(beta_max)
""", """        ess_est_prev = get_weights_and_ess(beta_prev)[1]
        ess_est_max = get_weights_and_ess(beta_max)[1]
"""), (S, """            beta = beta_prev
            weights = weights_prev
            logz = self.particles.get("logz", index=-1)
""", """            beta = beta_prev
            logz = self.particles.get("logz", index=-1)
"""), (S, """            beta = beta_max 
            weights = weights_max
            _, logz""", """            beta = beta_max 
            _, logz"""), (S, """                if np.abs(ess_est - self.n_effective) < 0.01 * self.n_effective or beta == 1.0:
""", """                if 0.99 * self.n_effective < ess_est < 1.01 * self.n_effective or beta == 1.0:
"""), (S, """        current_particles["u"] = self.particles.get("u", index=None, flat=True)[idx]
        current_particles["x"] = self.particles.get("x", index=None, flat=True)[idx]
        current_particles["logdetj"] = self.particles.get("logdetj", index=None, flat=True)[idx]
        current_particles["logl"] = self.particles.get("logl", index=None, flat=True)[idx]
        current_particles["logp"] = self.particles.get("logp", index=None, flat=True)[idx]
        if self.have_blobs:
            current_particles["blobs"] = self.particles.get("blobs", index=None, flat=True)[idx]
""", """        names = ["u", "x", "logdetj", "logl", "logp"] + (["blobs"] if self.have_blobs else [])
        for name in names:
            current_particles[name] = np.concatenate(self.particles.past[name])[idx]
"""))
rf("run-helpers", (S, """            # Choose next beta based on ESS of weights
            self.current_particles = self._reweight(self.current_particles)

            # Train Preconditioner
            self.current_particles = self._train(self.current_particles)

            # Resample particles
            self.current_particles = self._resample(self.current_particles)

            # Evolve particles using MCMC
            self.current_particles = self._mutate(self.current_particles)   

            # Save particles
            self.particles.update(self.current_particles)
""", """            self._iterate()
"""), (S, "    def _not_termination(self, current_particles):\n", """    def _iterate(self):
        particles = dict(self.current_particles)
        for stage in (self._reweight, self._train, self._resample, self._mutate):
            particles = stage(particles)
        self.current_particles = particles
        self.particles.update(particles)

    def _checkpoint(self, name):
        self.save_state(Path(self.output_dir, f'{self.output_label}_{name}.state'))

    def _not_termination(self, current_particles):
"""), (S, """            if save_every is not None:
                if (self.t - t0) % int(save_every) == 0 and self.t != t0:
                    self.save_state(Path(self.output_dir) / f'{self.output_label}_{self.t}.state')

            self._iterate()
""", """            if save_every is not None and self.t > t0 and (self.t - t0) % int(save_every) == 0:
                self._checkpoint(self.t)

            self._iterate()
"""))
rf("loglike-split", (S, """        if self.vectorize:
            logl = self.log_likelihood(x)
            return np.where(np.isnan(logl), -np.inf, logl), None
        elif self.pool is not None:
            results = list(self.distribute(self.log_likelihood, x))
        else:
            results = list(map(self.log_likelihood, x))
""", """        if self.vectorize:
            logl = np.array(self.log_likelihood(x), dtype=float)
            logl[np.isnan(logl)] = -np.inf
            return logl, None
        if self.pool is None:
            results = [self.log_likelihood(point) for point in x]
        else:
            results = [result for result in self.distribute(self.log_likelihood, x)]
"""), (S, """        logl[np.isnan(logl)] = -np.inf

        return logl, blob
""", """        return np.nan_to_num(logl, nan=-np.inf, posinf=np.inf, neginf=-np.inf), blob
"""))
rf("evidence-vector", (S, """        x_q = x_q[np.isfinite(logp)]
        logdetj = logdetj[np.isfinite(logp)]
        logq = logq[np.isfinite(logp)]
        logp = logp[np.isfinite(logp)]

        # compute log likelihood
        logl, _ = self._log_like(x_q)

        # compute log weights
        logw = logl + logp + logdetj - logq 

        # samples outside of the prior support have zero weight but do count
        logw = np.concatenate([logw, np.full(n - len(logw), -np.inf)])
""", """        inside = np.isfinite(logp)

        # compute log likelihood
        logl, _ = self._log_like(x_q[inside])

        # compute log weights, samples outside of the prior support have zero weight but do count
        logw = np.full(n, -np.inf)
        logw[inside] = logl + logp[inside] + logdetj[inside] - logq[inside]
"""), (S, "dlogz = np.std([np.logaddexp.reduce(logw[np.random.choice(len(logw), len(logw))]) - np.log(len(logw)) for _ in range(np.maximum(n,1000))])", "dlogz = np.std([np.logaddexp.reduce(logw[np.random.randint(0, n, size=n)]) for _ in range(max(n, 1000))])"))
rf("warmup-helper", (S, """                if np.any(inf_logl_mask):
                    all_idx = np.arange(len(x))
                    infinite_idx = all_idx[inf_logl_mask]
                    finite_idx = all_idx[~inf_logl_mask]
                    idx = np.random.choice(finite_idx, size=len(infinite_idx), replace=True)
                    x[infinite_idx] = x[idx]
                    u[infinite_idx] = u[idx]
                    logdetj[infinite_idx] = logdetj[idx]
                    logp[infinite_idx] = logp[idx]
                    logl[infinite_idx] = logl[idx]
                    if self.have_blobs:
                        blobs[infinite_idx] = blobs[idx]
""", """                if inf_logl_mask.any():
                    idx = np.arange(len(x))
                    idx[inf_logl_mask] = np.random.choice(idx[~inf_logl_mask], size=inf_logl_mask.sum())
                    x, u, logdetj, logp, logl = (v[idx] for v in (x, u, logdetj, logp, logl))
                    if self.have_blobs:
                        blobs = blobs[idx]
"""))
rf("posterior-helper", (S, """        samples = self.particles.get("x", flat=True)
        logl = self.particles.get("logl", flat=True)
        logp = self.particles.get("logp", flat=True)
        if return_blobs:
            blobs = self.particles.get("blobs", flat=True)
        logw, _ = self.particles.compute_logw_and_logz(1.0)
        weights = np.exp(logw)

        if trim_importance_weights:
            idx, weights = trim_weights(np.arange(len(samples)), weights, ess=ess_trim, bins=bins_trim)
            samples = samples[idx]
            logl = logl[idx]
            logp = logp[idx]
            logw = logw[idx]
            if return_blobs:
                blobs = blobs[idx]
""", """        names = ["x", "logl", "logp"] + (["blobs"] if return_blobs else [])
        columns = [self.particles.get(name, flat=True) for name in names]
        logw = self.particles.compute_logw_and_logz(1.0)[0]
        weights = np.exp(logw)

        if trim_importance_weights:
            keep, weights = trim_weights(np.arange(len(logw)), weights, ess=ess_trim, bins=bins_trim)
            columns = [column[keep] for column in columns]
            logw = logw[keep]
        samples, logl, logp = columns[:3]
        if return_blobs:
            blobs = columns[3]
"""))
rf("trim-binary", (T, """    i = bins - 1
    while True:
        p = percentiles[i]
        # compute weight threshold
        threshold = np.percentile(weights, p)
        mask = weights >= threshold
        weights_trimmed = weights[mask]
        weights_trimmed /= np.sum(weights_trimmed)
        ess_trimmed = 1.0 / np.sum(weights_trimmed**2.0)
        # at i=0 all samples are kept
        if ess_trimmed / ess_total >= ess or i == 0:
            break 
        i -= 1
    
""", """    for threshold in np.percentile(weights, percentiles)[::-1]:
        mask = weights >= threshold
        weights_trimmed = weights[mask] / np.sum(weights[mask])
        if 1.0 / np.sum(weights_trimmed**2.0) >= ess * ess_total:
            break

"""))
rf("flow-train", (F, "            if history[monitor][-1] < best_loss:\n                best_loss = history[monitor][-1]\n                best_epoch = epoch\n                best_model = copy.deepcopy(self.flow.state_dict())\n",
   "            current = history[monitor][-1]\n            if current < best_loss:\n                best_loss, best_epoch = current, epoch\n                best_model = {k: v.clone() for k, v in self.flow.state_dict().items()}\n"))
rf("scaler", (C, """                    while x[j, i] > self.high[i]:
                        x[j, i] = self.low[i] + x[j, i] - self.high[i]
                    while x[j, i] < self.low[i]:
                        x[j, i] = self.high[i] + x[j, i] - self.low[i]
""", """                    if not self.low[i] <= x[j, i] <= self.high[i]:
                        x[j, i] = self.low[i] + np.mod(x[j, i] - self.low[i], self.high[i] - self.low[i])
"""), (C, "        p = np.exp(u[:, self.mask_left])\n\n        return np.exp(u[:, self.mask_left]) + self.low[self.mask_left], u[:, self.mask_left]", "        v = u[:, self.mask_left]\n        return self.low[self.mask_left] + np.exp(v), v"))
rf("prior", (R, """        logp = np.zeros(len(x))
        for i, dist in enumerate(self.dists): 
            logp += dist.logpdf(x[:,i])
        return logp
""", """        x = np.asarray(x)
        return np.sum([dist.logpdf(x[:, i]) for i, dist in enumerate(self.dists)], axis=0)
"""))


def apply(root, names):
    for n in names:
        for e in L[n]:
            f, old, new = e[:3]
            p = os.path.join(root, f)
            s = open(p).read()
            k = s.count(old)
            if k == 0:
                print("%s: edit does not apply in %s: %r" % (n, f, old[:70]))
                return False
            s = s.replace(old, new) if len(e) > 3 else s.replace(old, new, 1)
            open(p, "w").write(s)
    return True


def main():
    a = sys.argv[1:]
    props = ["C%02d" % i for i in range(1, 20)]
    if a and a[0] == "-p":
        props, a = a[1].split(","), a[2:]
    notest = "-n" in a
    a = [x for x in a if x != "-n"]
    for spec in a or list(L):
        names = [n for n in L if n not in ("save-tempfile", "save-cleanup", "kernels-stream")] if spec == "all" else spec.split("+")
        w = tempfile.mkdtemp(prefix="refac_", dir="/tmp")
        try:
            shutil.copytree("/repo", w + "/repo")
            if not apply(w + "/repo", names):
                continue
            if not notest:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "tests"], cwd=w + "/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, PYTHONPATH=w + "/repo"))
                print(spec, "tests:", r.stdout.decode().strip().splitlines()[-1], flush=True)
            for prop in props:
                t = time.time()
                r = subprocess.run(["/opt/venv/bin/python", "/verif/check.py", prop, "--tier", "quick"], cwd="/verif", env=dict(os.environ, VERIF_REPO=w + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                out = r.stdout.decode()
                m = re.search(r"violation: (.*)", out)
                print("%-20s %s rc=%d %3.0fs %s" % (spec, prop, r.returncode, time.time() - t, (m.group(1) if m else out.strip().splitlines()[-1])[:200]), flush=True)
        finally:
            shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    main()
