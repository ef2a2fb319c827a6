"""Small changes used to measure the checks (no demonstrations; see defs.py for the full planted bugs).
mutants.py [-n] [ids...]: apply each to a scratch copy of /repo, run the repository's tests, then the property's quick check."""
import os, sys, subprocess, shutil, tempfile, json, time
S, K, P, Q, T, C, F, R, G = ["pocomc/%s.py" % n for n in ("sampler", "mcmc", "parallel", "particles", "tools", "scaler", "flow", "prior", "geometry")]
L = {}


def m(id, prop, f, old, new, nth=0):
    assert id not in L, id
    L[id] = (prop, [(f, old, new, nth)])


# --- C01/C02/C04/C05 storage
m("tmp-constant", "C01", S, "temp_path = Path(f'{path}.temp')", "temp_path = Path(path).parent / 'state.temp'")
m("tmp-suffix", "C01", S, "temp_path = Path(f'{path}.temp')", "temp_path = Path(path).with_suffix('.temp')")
m("no-flush", "C01", S, "            f.flush()\n            os.fsync(f.fileno())\n", "            os.fsync(f.fileno())\n")
m("rename-inside", "C01", S, "            os.fsync(f.fileno())\n\n        os.rename(temp_path, path)", "            os.fsync(f.fileno())\n            os.rename(temp_path, path)")
m("rename-before-sync", "C01", S, "            f.flush()\n            os.fsync(f.fileno())\n\n        os.rename(temp_path, path)", "            f.flush()\n            os.rename(temp_path, path)\n            os.fsync(f.fileno())")
m("append-mode", "C01", S, "with open(temp_path, 'wb') as f:", "with open(temp_path, 'ab') as f:")
m("excl-mode", "C01", S, "with open(temp_path, 'wb') as f:", "with open(temp_path, 'xb') as f:")
m("rplus-mode", "C01", S, "with open(temp_path, 'wb') as f:", "with open(temp_path, 'r+b' if temp_path.exists() else 'wb') as f:")
m("direct-first", "C01", S, "        temp_path = Path(f'{path}.temp')\n", "        temp_path = Path(f'{path}.temp') if Path(path).exists() else Path(path)\n")
m("swallow-fsync", "C02", S, "            os.fsync(f.fileno())\n", "            try:\n                os.fsync(f.fileno())\n            except OSError:\n                pass\n")
m("swallow-rename", "C02", S, "        os.rename(temp_path, path)", "        try:\n            os.rename(temp_path, path)\n        except OSError as e:\n            print(e)")
m("swallow-final", "C02", S, "            self.save_state(Path(self.output_dir) / f'{self.output_label}_final.state')", "            try:\n                self.save_state(Path(self.output_dir) / f'{self.output_label}_final.state')\n            except OSError as e:\n                print(f'Could not save final state: {e}')")
m("state-alias", "C02", S, "            state = self.__dict__.copy()\n            del state['pbar']", "            state = self.__dict__\n            del state['pbar']")
m("clear-before-save", "C02", S, "        print(f'Saving PMC state to {path}')\n", "        print(f'Saving PMC state to {path}')\n        current, self.current_particles = self.current_particles, dict(self.current_particles or {}, weights=None)\n")
m("final-before-evidence", "C04", S, "        # Compute evidence\n        if self.n_evidence > 0", "        if save_every is not None and self.t % int(save_every) == 0:\n            self.save_state(Path(self.output_dir) / f'{self.output_label}_{self.t}.state')\n        # Compute evidence\n        if self.n_evidence > 0")
m("every-absolute", "C04", S, "if (self.t - t0) % int(save_every) == 0 and self.t != t0:", "if self.t % int(save_every) == 0 and self.t != t0:", 1)
m("warm-not-saved", "C04", S, "if (self.t - t0) % int(save_every) == 0 and self.t != t0:", "if (self.t - t0) % int(save_every) == 0 and self.t != t0 and i > 1:", 0)
m("final-only-evidence", "C04", S, "        if save_every is not None:\n            self.save_state(Path(self.output_dir) / f'{self.output_label}_final.state')", "        if save_every is not None and self.t != t0:\n            self.save_state(Path(self.output_dir) / f'{self.output_label}_final.state')")
m("progress-mean", "C04", S, "            self.pbar = ProgressBar(self.progress)\n", "            self.pbar = ProgressBar(self.progress)\n            if self.progress:\n                np.random.random()\n")
m("load-partial", "C05", S, "        with open(path, 'rb') as f:\n            state = dill.load(file=f)\n", "        try:\n            with open(path, 'rb') as f:\n                state = dill.load(file=f)\n        except EOFError:\n            state = {}\n")
m("load-missing", "C05", S, "            self.load_state(resume_state_path)\n            t0 = self.t", "            if Path(resume_state_path).exists():\n                self.load_state(resume_state_path)\n            t0 = self.t")
m("load-reset-logz", "C05", S, "        with open(path, 'rb') as f:\n            state = dill.load(file=f)\n", "        self.logz, self.logz_err = None, None\n        with open(path, 'rb') as f:\n            state = dill.load(file=f)\n")
# --- C03
for fld in ("prior_samples", "calls", "flow_untrained", "n_effective", "u_geometry", "theta_geometry", "current_particles", "proposal_scale", "warmup", "logz", "scaler", "flow", "have_blobs"):
    m("drop-" + fld, "C03", S, "            dill.dump(file=f, obj=state)\n", "            del state['%s']\n            dill.dump(file=f, obj=state)\n" % fld)
m("resume-t", "C03", S, "            self.load_state(resume_state_path)\n            t0 = self.t", "            self.load_state(resume_state_path)\n            self.t = len(self.particles.get('beta'))\n            t0 = self.t")
m("resume-warm", "C03", S, "for i in range(self.t, self.n_prior//self.n_active):", "for i in range(len(self.particles.get('beta')), self.n_prior//self.n_active):")
m("resume-neff", "C03", S, "            t0 = self.t\n            # Initialise progress bar\n            self.pbar = ProgressBar(self.progress, initial=t0)", "            t0 = self.t\n            self.proposal_scale = min(self.proposal_scale, 2.38 / self.n_dim ** 0.5)\n            self.flow_untrained = True\n            # Initialise progress bar\n            self.pbar = ProgressBar(self.progress, initial=t0)")
m("float32-state", "C03", S, "            state = self.__dict__.copy()\n            del state['pbar']", "            state = self.__dict__.copy()\n            if state['prior_samples'] is not None:\n                state['prior_samples'] = state['prior_samples'].astype('float32').astype(float)\n            del state['pbar']")
# --- C06/C07
m("fifo-index", "C06", P, "            resultlist[taskid] = result\n", "            resultlist[len(resultlist) - pending] = result\n")
m("none-retry", "C06", P, "            resultlist[taskid] = result\n            pending -= 1\n", "            if result is None and resultlist[taskid] is None and tasklist:\n                result = None\n            resultlist[taskid] = result\n            pending -= 1\n")
m("tag-mod", "C06", P, "self.comm.send(task, dest=worker, tag=taskid)", "self.comm.send(task, dest=worker, tag=taskid % 256)")
m("send-twice", "C06", P, "            if workerset and tasklist:\n", "            if len(workerset) > 1 and len(tasklist) == 1:\n                tasklist = tasklist * 2\n                pending += 1\n            if workerset and tasklist:\n")
m("reuse-func", "C06", P, "                func, arg = task\n", "                func, arg = task\n                func = self.__dict__.setdefault('_func', func)\n")
m("chunk-master", "C06", P, "        resultlist = [None] * len(tasklist)\n", "        resultlist = [None] * len(tasklist)\n        if len(tasklist) == 1:\n            return [worker(tasklist[0][1][1])]\n")
m("quit-once", "C07", P, "        for worker in self.workers:\n            self.comm.send(None, worker, 0)", "        while self.workers:\n            self.comm.ssend(None, self.workers.pop(), 0)")
m("exit-only-ok", "C07", P, "    def __exit__(self, *args):\n        self.close()", "    def __exit__(self, *args):\n        if args[0] is None:\n            self.close()\n            atexit.unregister(self.close)")
m("no-atexit", "C07", P, "        atexit.register(lambda: MPIPool.close(self))\n", "")
m("no-refuse", "C07", P, "        if self.size == 0:", "        if self.size < 0:")
m("blocking-probe", "C07", P, "            if tasklist:\n                flag", "            if tasklist and workerset:\n                flag")
m("probe-first", "C07", P, "            if workerset and tasklist:\n", "            if workerset and tasklist and not (len(tasklist) < 2 and len(workerset) < len(self.workers) and self.comm.Probe(source=MPI.ANY_SOURCE, tag=1)):\n")
# --- C08
m("pool-none-serial", "C08", S, "            results = list(self.distribute(self.log_likelihood, x))\n", "            results = sorted(self.distribute(self.log_likelihood, x), key=lambda r: 0 if np.ndim(r) else -r) if len(x) == 1 else list(self.distribute(self.log_likelihood, x))\n")
m("pool-dedupe", "C08", S, "            results = list(self.distribute(self.log_likelihood, x))\n", "            results = list(self.distribute(self.log_likelihood, x.astype(np.float32).astype(float)))\n")
m("vec-float32", "C08", S, "            logl = self.log_likelihood(x)\n", "            logl = np.asarray(self.log_likelihood(x), dtype=np.float32).astype(float)\n")
m("pool-size-prior", "C08", S, "            self.pool = Pool(pool)\n", "            self.pool = Pool(pool)\n            self.n_active = max(self.n_active, pool)\n")
m("lazy-len", "C08", S, "            results = list(self.distribute(self.log_likelihood, x))\n", "            results = self.distribute(self.log_likelihood, x)\n            results = results if isinstance(results, list) else [r for r in results if r is not None][::-1][::-1][:len(x) - len(x) // 1000]\n")
# --- C09
m("seed-truthy", "C09", S, "        if random_state is not None:\n            np.random.seed(random_state)", "        if random_state:\n            np.random.seed(random_state)")
m("no-torch-seed", "C09", S, "            torch.manual_seed(random_state)\n", "")
m("default-rng-mult", "C09", S, "            idx_resampled = np.random.choice(np.arange(len(weights)), size=self.n_active, replace=True, p=weights)", "            idx_resampled = np.random.default_rng(self.random_state).choice(np.arange(len(weights)), size=self.n_active, replace=True, p=weights)")
m("rng-entropy", "C09", S, "dlogz = np.std([np.logaddexp.reduce(logw[np.random.choice(len(logw), len(logw))])", "rng = np.random.default_rng()\n        dlogz = np.std([np.logaddexp.reduce(logw[rng.choice(len(logw), len(logw))])")
m("hash-seed", "C09", S, "            np.random.seed(random_state)\n", "            np.random.seed((random_state + hash(str(transform)) % 2) % 2**32)\n")
m("time-patience", "C09", F, "            if epoch - best_epoch >= int(1.5 * patience):", "            if epoch - best_epoch >= int(1.5 * patience) or time.time() - start_time_sec > 600.0:")
m("set-order", "C09", S, "            for key in train_config.keys():\n", "            np.random.seed(int(np.random.randint(2**31)) ^ (hash(tuple(set(map(str, train_config)))) & 1)) if random_state is None else None\n            for key in train_config.keys():\n")
# --- C10
for i, kern in enumerate(("ppcn", "prwm", "pcn", "rwm")):
    m("no-logdetj-" + kern, "C10", K, "        logdetj[mask] = logdetj_prime[mask]\n", "        logdetj[mask] = logdetj_prime[mask] if np.any(~mask) else logdetj[mask]\n", i)
    m("no-logp-" + kern, "C10", K, "        logp[mask] = logp_prime[mask]\n", "        if np.sum(mask) > 1:\n            logp[mask] = logp_prime[mask]\n", i)
    m("nan-accept-" + kern, "C17", K, "        logl_prime[~finite_mask] = -np.inf\n", "        logl_prime[~finite_mask] = -np.inf\n        logl_prime[np.isneginf(logl_prime) & finite_mask] = -1e300\n", i)
m("blob-resample", "C10", S, "            current_particles[\"blobs\"] = blobs[idx_resampled]\n", "            current_particles[\"blobs\"] = blobs[np.sort(idx_resampled)]\n")
m("blob-inf", "C10", S, "                    if self.have_blobs:\n                        blobs[infinite_idx] = blobs[idx]\n", "")
m("logp-inf", "C10", S, "                    logp[infinite_idx] = logp[idx]\n", "")
m("post-trim-blobs", "C10", S, "            if return_blobs:\n                blobs = blobs[idx]\n", "            if return_blobs:\n                blobs = blobs[:len(idx)]\n")
m("post-trim-logp", "C10", S, "            logp = logp[idx]\n", "            logp = logp[np.sort(idx)[::-1]][::-1] if len(idx) > 1 and not resample else logp[:len(idx)]\n")
m("boundary-x", "C10", K, "            x_prime, logdetj_prime = scaler.inverse(u_prime)\n", "            logdetj_prime = scaler.inverse(u_prime)[1]\n", 0)
# --- C11
m("calls-max", "C11", S, "        self.calls += len(logl)\n", "        self.calls += n\n")
m("calls-warm", "C11", S, "                self.calls += self.n_active\n", "                self.calls += int(np.sum(np.isfinite(logl)))\n")
m("calls-flow", "C11", S, "        self.calls = current_particles.get(\"calls\")\n", "        self.calls = int(np.maximum(self.calls, current_particles.get(\"calls\"))) if not self.vectorize else self.calls + int(results.get('steps')) * self.n_active\n")
# --- C12
m("retry-like", "C12", S, "            results = list(map(self.log_likelihood, x))\n", "            try:\n                results = list(map(self.log_likelihood, x))\n            except ArithmeticError:\n                results = [-np.inf] * len(x)\n")
m("finally-update", "C12", S, "            # Evolve particles using MCMC\n            self.current_particles = self._mutate(self.current_particles)   \n", "            # Evolve particles using MCMC\n            try:\n                self.current_particles = self._mutate(self.current_particles)\n            except KeyboardInterrupt:\n                self.current_particles['weights'] = None\n                break\n")
m("exc-evidence", "C12", S, "            self._compute_evidence(self.n_evidence)\n", "            try:\n                self._compute_evidence(self.n_evidence)\n            except Exception:\n                _, self.logz = self.particles.compute_logw_and_logz(1.0)\n                self.logz_err = None\n")
m("warm-flag", "C12", S, "        if self.warmup:\n            for i in range", "        if self.warmup:\n            self.warmup = self.prior_samples is None\n            for i in range")
m("t-skip", "C12", S, "        current_particles[\"iter\"] = self.t\n        self.t += 1\n", "        current_particles[\"iter\"] = self.t\n        self.t = len(self.particles.get(\"beta\")) + 1\n")
# --- C13
m("stop-or", "C13", S, ">= 1e-4 or ess < self.n_total", ">= 1e-4 or ess < 0.97 * self.n_total")
m("beta-tol", "C13", S, ">= 1e-4 or ess < self.n_total", ">= 0.02 or ess < self.n_total")
m("beta-overshoot", "C13", S, "        beta_max = 1.0\n", "        beta_max = 1.0 + 1e-9 * (beta_prev > 0.99)\n") if False else None
m("beta-decrease", "C13", S, "        beta_min = np.copy(beta_prev)\n", "        beta_min = 0.999 * np.copy(beta_prev)\n")
m("uss-as-ess", "C13", S, "            ess = unique_sample_size(weights)\n", "            ess = unique_sample_size(weights, k=2 * len(weights))\n")
m("one-more", "C13", S, "        while self._not_termination(self.current_particles):\n", "        while self._not_termination(self.current_particles) or (self.t == t0 and not self.warmup and save_every is not None):\n")
# --- C14
m("logz-drift", "C14", Q, "        B = np.logaddexp.reduce(b, axis=0) - np.log(len(beta))\n", "        B = np.logaddexp.reduce(b[beta <= beta_final] if np.any(beta <= beta_final) else b, axis=0) - np.log(max(1, np.sum(beta <= beta_final)))\n")
m("logz-dedupe", "C14", Q, "        B = np.logaddexp.reduce(b, axis=0) - np.log(len(beta))\n", "        _, first = np.unique(beta, return_index=True)\n        B = np.logaddexp.reduce(b[first], axis=0) - np.log(len(first))\n")
m("trim-strict", "C14", T, "        mask = weights >= threshold\n", "        mask = weights > threshold if i else weights >= threshold\n")
m("trim-step", "C14", T, "        i -= 1\n    \n    return samples[mask]", "        i = max(i - 40, 0)\n    \n    return samples[mask]")
m("post-logw", "C14", S, "            logw = logw[idx]\n", "            logw = logw[idx]\n            logw = logw - np.logaddexp.reduce(logw[:1000])\n")
m("ess-record", "C14", S, "            ess_est = ess_est_max\n", "            ess_est = ess_est_prev\n")
m("logz-prev", "C14", S, "            _, logz = self.particles.compute_logw_and_logz(beta)\n            ess_est = ess_est_max\n", "            _, logz = self.particles.compute_logw_and_logz(np.nextafter(beta, 0) if beta_prev > 0 else beta_prev)\n            ess_est = ess_est_max\n")
# --- C15
m("cls-geometry", "C15", S, "        self.u_geometry = Geometry()\n        self.theta_geometry = Geometry()\n", "        if not hasattr(Sampler, '_geo'):\n            Sampler._geo = Geometry()\n        self.u_geometry = Sampler._geo\n        self.theta_geometry = Geometry()\n")
m("default-cfg", "C15", S, "            for key in train_config.keys():\n                self.train_config[key] = train_config[key]\n", "            for key in self.train_config.keys():\n                train_config.setdefault(key, self.train_config[key])\n            self.train_config = train_config\n")
m("args-append", "C15", T, "        self.args = [] if args is None else args\n", "        self.args = [] if args is None else args\n        self.args.append(0.0) if False else None\n") if False else None
m("bounds-cache", "C15", C, "        self.low = bounds.T[0]\n", "        self.low = _CACHE.setdefault(self.ndim, bounds.T[0])\n")
L["bounds-cache"][1].append((C, "class Reparameterize:\n", "_CACHE = {}\n\n\nclass Reparameterize:\n", 0))
m("global-scale", "C15", S, "        self.proposal_scale = results.get('proposal_scale')\n", "        type(self).proposal_scale = results.get('proposal_scale')\n        self.__dict__.pop('proposal_scale', None)\n")
m("label-shared", "C15", S, "        temp_path = Path(f'{path}.temp')\n", "        temp_path = Path(path).parent / 'current.temp'\n")
# --- C16
m("pcn-mu-adapt", "C16", K, "        diff_prime = u_prime - mu\n", "        diff_prime = u_prime - np.mean(u, axis=0)\n")
m("pcn-gamma", "C16", K, "np.random.gamma((n_dim + nu) / 2, 2.0/(nu + np.dot(diff[k],np.dot(inv_cov,diff[k]))))", "np.random.gamma(nu / 2, 2.0/nu)", 1)
m("pcn-noAB", "C16", K, "logdetj_prime - logdetj - A + B)", "logdetj_prime - logdetj)")
m("pcn-halfAB", "C16", K, "            B[k] = -(n_dim+nu)/2*np.log(1+np.dot(diff[k],np.dot(inv_cov,diff[k]))/nu)\n", "            B[k] = -nu/2*np.log(1+np.dot(diff[k],np.dot(inv_cov,diff[k]))/nu)\n", 1)
m("rwm-nolpd", "C16", K, "            np.exp(logl_prime * beta - logl * beta + logp_prime - logp + logdetj_prime - logdetj)\n", "            np.exp(logl_prime * beta - logl * beta + logp_prime - logp)\n")
m("beta-square", "C16", K, "logl_prime * beta - logl * beta + logp_prime - logp + logdetj_prime - logdetj - A + B", "(logl_prime - logl) * np.minimum(beta * 1.05, 1.0) + logp_prime - logp + logdetj_prime - logdetj - A + B")
m("ev-n", "C16", S, "np.full(n - len(logw), -np.inf)", "np.full(0, -np.inf)")
m("ev-noprior", "C16", S, "        logw = logl + logp + logdetj - logq \n", "        logw = logl + logp - logq \n")
m("syst-pos", "C16", T, "    positions = (np.random.random() + np.arange(size)) / size\n", "    positions = (0.5 + np.arange(size)) / size\n")
m("syst-off", "C16", T, "    positions = (np.random.random() + np.arange(size)) / size\n", "    positions = np.random.random() / size + np.arange(size) / (size + 1)\n")
m("logit-jac", "C16", C, "np.log(p) + np.log(1.0 - p)", "np.log(p) + np.log1p(-p) * (p < 0.999)")
m("left-jac", "C16", C, "        return np.exp(u[:, self.mask_left]) + self.low[self.mask_left], u[:, self.mask_left]\n", "        return np.exp(u[:, self.mask_left]) + self.low[self.mask_left], 0.0 * u[:, self.mask_left]\n")
m("err-1000", "C16", S, "for _ in range(np.maximum(n,1000))])", "for _ in range(np.maximum(n,1000))]) / np.sqrt(10)")
m("post-mult", "C16", S, "idx_resampled = np.random.choice(np.arange(len(weights)), size=len(samples), replace=True, p=weights)", "idx_resampled = np.random.choice(np.arange(len(weights)), size=len(samples), replace=True)")
m("prwm-flow-stale", "C16", K, "        logdetj_flow[mask] = logdetj_flow_prime[mask]\n", "", 1)
m("ppcn-flow-stale", "C16", K, "        logdetj_flow[mask] = logdetj_flow_prime[mask]\n", "", 0)
m("ppcn-flow-sign", "C16", K, "logdetj_flow_prime - logdetj_flow - A + B", "logdetj_flow - logdetj_flow_prime - A + B")
m("ppcn-noflow", "C16", K, "logdetj_prime - logdetj + logdetj_flow_prime - logdetj_flow - A + B", "logdetj_prime - logdetj - A + B")
m("prwm-noflow", "C16", K, "logdetj_prime - logdetj + logdetj_flow_prime - logdetj_flow)", "logdetj_prime - logdetj)")
m("ppcn-theta-stale", "C16", K, "        theta[mask] = theta_prime[mask]\n", "", 0)
m("prwm-theta-stale", "C16", K, "        theta[mask] = theta_prime[mask]\n", "", 1)
m("ppcn-noprior", "C16", K, "+ logp_prime - logp + logdetj_prime - logdetj + logdetj_flow_prime - logdetj_flow - A + B", "+ logdetj_prime - logdetj + logdetj_flow_prime - logdetj_flow - A + B")
m("ppcn-noAB", "C16", K, "logdetj_flow_prime - logdetj_flow - A + B", "logdetj_flow_prime - logdetj_flow")
m("ppcn-gamma", "C16", K, "np.random.gamma((n_dim + nu) / 2, 2.0/(nu + np.dot(diff[k],np.dot(inv_cov,diff[k]))))", "np.random.gamma(nu / 2, 2.0/nu)", 0)
m("pcn-contract", "C16", K, "(1.0 - sigma ** 2.0) ** 0.5 * diff[k]", "(1.0 - sigma) * diff[k]", 1)
m("ppcn-contract", "C16", K, "(1.0 - sigma ** 2.0) ** 0.5 * diff[k]", "(1.0 - sigma) * diff[k]", 0)
m("pcn-logdetj-stale", "C16", K, "        logdetj[mask] = logdetj_prime[mask]\n        logl", "        logl", 0)
m("probit-jac", "C16", C, "            J = np.log(self.high[self.mask_both] - self.low[self.mask_both]) + (-u[:, self.mask_both]", "            J = np.log(self.high[self.mask_both] - self.low[self.mask_both]) + 1.1 * (-u[:, self.mask_both]")
m("aff-jac", "C16", C, "            log_det_J = np.sum(np.log(self.sigma))\n", "            log_det_J = np.log(np.sum(self.sigma))\n")
m("warm-logz-zero", "C16", S, "                logz = np.log(np.mean(~inf_logl_mask))\n", "                logz = 0.0\n")
m("refl-wrong", "C16", C, "                        x[j, i] = self.high[i] - x[j, i] + self.high[i]\n", "                        x[j, i] = self.high[i]\n")
m("trim-half", "C16", S, "trim_weights(np.arange(len(weights)), weights, ess=0.99, bins=1000)", "trim_weights(np.arange(len(weights)), weights, ess=0.6, bins=1000)")
m("uss-k", "C16", S, "            n_unique_active = unique_sample_size(weights, k=self.n_active)\n", "            n_unique_active = unique_sample_size(weights)\n")
m("accept-greedy", "C16", K, "        mask = u_rand < alpha\n", "        mask = (u_rand < alpha) | (logl_prime > logl)\n", 2)
m("accept-greedy-p", "C16", K, "        mask = u_rand < alpha\n", "        mask = (u_rand < alpha) | ((logl_prime > logl) & finite_mask)\n", 0)
m("mult-norepl", "C16", S, "size=self.n_active, replace=True, p=weights)", "size=self.n_active, replace=np.count_nonzero(weights) < self.n_active, p=weights)")
m("ev-clip", "C16", S, "        logw = logl + logp + logdetj - logq \n", "        logw = logl + logp + logdetj - logq \n        logw = np.minimum(logw, np.percentile(logw[np.isfinite(logw)], 98)) if np.any(np.isfinite(logw)) else logw\n")
m("ev-finite", "C16", S, "        logl, _ = self._log_like(x_q)\n", "        logl, _ = self._log_like(x_q)\n        x_q, logdetj, logq, logp, logl = (v[np.isfinite(logl)] for v in (x_q, logdetj, logq, logp, logl))\n        n = len(logl)\n")
m("shared-u", "C16", K, "        u_rand = np.random.rand(n_walkers)\n", "        u_rand = np.random.rand()\n", 3)
# --- C17
m("nan-vec", "C17", S, "            return np.where(np.isnan(logl), -np.inf, logl), None\n", "            return logl, None\n")
m("posinf-mask", "C17", S, "                inf_logl_mask = np.isinf(logl)\n", "                inf_logl_mask = np.isinf(logl) & (i > 0)\n")
m("inf-idx", "C17", S, "idx = np.random.choice(finite_idx, size=len(infinite_idx), replace=True)", "idx = np.random.choice(all_idx, size=len(infinite_idx), replace=True)")
# --- C18
m("cache-results", "C18", S, "        return self.particles.compute_results()\n", "        if self.particles.results_dict is None or len(self.particles.results_dict['beta']) == 0 or self.t != self.particles.results_dict['iter'][-1] + 1:\n            self.particles.results_dict = self.particles.compute_results()\n        return self.particles.results_dict\n")
m("iter-t1", "C18", S, "        self.t += 1\n        self.pbar.update_iter()\n\n        beta_prev", "        self.t += 1 if self.n_evidence >= 0 else 2\n        self.pbar.update_iter()\n\n        beta_prev") if False else None
m("dup-final", "C18", S, "        # Compute evidence\n        if self.n_evidence > 0", "        if self.t == t0 and save_every is not None:\n            self.particles.update(self.current_particles)\n        # Compute evidence\n        if self.n_evidence > 0")
m("particles-slice", "C18", Q, "                self.past.get(key).append(value)\n", "                self.past.get(key).append(value)\n                if key == 'beta' and len(self.past['beta']) > 64:\n                    self.past[key] = self.past[key][-64:]\n") if False else None
# --- C19
m("inplace-weights", "C19", S, "        weights = np.exp(logw)\n\n        if trim", "        weights = np.exp(logw)\n        self.particles.past['logw'][-1] = logw[-self.n_active:]\n\n        if trim")
m("results-view", "C19", Q, "                return np.asarray(self.past.get(key))\n", "                return np.asarray(self.past.get(key)) if len(self.past.get(key)) != 1 else np.asarray(self.past.get(key)[0])[None]\n")
m("post-consume", "C19", S, "        samples = self.particles.get(\"x\", flat=True)\n", "        np.random.random()\n        samples = self.particles.get(\"x\", flat=True)\n")
m("query-neff", "C19", S, "        logw, _ = self.particles.compute_logw_and_logz(1.0)\n        weights = np.exp(logw)\n", "        logw, _ = self.particles.compute_logw_and_logz(1.0)\n        weights = np.exp(logw)\n        if resample:\n            self.n_total = max(self.n_total, 0)\n            self.proposal_scale = float(np.float32(self.proposal_scale))\n")


def apply(repo, edits):
    for f, old, new, nth in edits:
        p = os.path.join(repo, f)
        s = open(p).read()
        k = -1
        for _ in range(nth + 1):
            k = s.find(old, k + 1)
            if k < 0:
                return "edit does not apply: %r" % old[:70]
        open(p, "w").write(s[:k] + new + s[k + len(old):])
    return None


def main():
    a = sys.argv[1:]
    dry = "-n" in a
    a = [x for x in a if x != "-n"]
    ids = [i for i in L if not a or i in a or any(i.startswith(x[:-1]) for x in a if x.endswith("*")) or L[i][0] in a]
    for id in ids:
        prop, edits = L[id]
        w = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
        try:
            repo = os.path.join(w, "repo")
            shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("__pycache__", ".git"))
            e = apply(repo, edits)
            if e or dry:
                print("%-22s %s %s" % (id, prop, e or "applies"), flush=True)
                continue
            t = time.time()
            r = subprocess.run(["/opt/venv/bin/python", "check.py", prop, "--tier", "quick"], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                               env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = r.stdout.decode()
            v = [l for l in o.splitlines() if l.startswith("violation:") or "violates" in l]
            print("%-22s %s rc=%d %3ds %s" % (id, prop, r.returncode, time.time() - t, (v[-1][:150] if v else o.strip().splitlines()[-1][:150] if o.strip() else "")), flush=True)
        finally:
            shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    main()
