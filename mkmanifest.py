"""Writes MANIFEST.json from the table below (run by hand; not used by any check)."""
import json
PY = "/opt/venv/bin/python check.py %s --tier %s"
BASE = ("Seeded search over simulated executions of the real pocomc code; one seed is one exactly repeatable execution. "
        "Shows absence of violations only on the executions explored. ")
C = {
 "C01": ("simulated disk: process kill and power loss at every storage operation of a save, checked against the set of complete states",
         "Within one save the crash points are enumerated at the level of system calls the code issues (kill) and of legal persisted subsets (power loss); states, names, leftovers and sequences are sampled. Trusts the disk model in sim/disk.py and that the crash points seen by it are all the storage calls made."),
 "C02": ("fault injection at every storage operation of a save, twin run as oracle",
         "Errno kinds and fault points are sampled per save; oracle is a bit-exact comparison with a run that never attempted the failed save. Short writes and EINTR are injected below Python's file objects."),
 "C03": ("crash/resume chains of simulated process lives against the uninterrupted run",
         "Oracle is bit-exact equality with the uninterrupted run under the same random stream, which the simulator saves and restores next to each checkpoint (the random state is not part of a checkpoint)."),
 "C04": ("simulated disk with checkpoint schedule model and twin runs without checkpointing/progress",
         "The set of published files and their contents is compared with an independent model of the schedule."),
 "C05": ("truncation and read-fault injection on real checkpoints with twin sampler oracle",
         "Truncation offsets and read-fault points are sampled (biased to pickle structure); mutated bytes are not claimed."),
 "C06": ("discrete-event MPI simulator, seeded message scheduling, exactly-once/order oracle",
         "The MPI library is a simulated mpi4py (sim/mpi.py) with eager and rendezvous sends, non-overtaking per pair and adversarial delivery; the pool code is real."),
 "C07": ("discrete-event MPI simulator, seeded scheduling with task failures, deadlock detection and bounded progress",
         "Deadlock is decided exactly by the simulator (no runnable rank); progress bound is linear in the number of tasks."),
 "C08": ("same seeded run under simulated pools with adversarial completion order, and simulated MPI, against the serial run",
         "Oracle is bit-exact equality with the serial run. multiprocess.Pool is replaced by a simulated pool."),
 "C09": ("paired seeded runs with perturbed clock, entropy, hash seed, global random state and process history",
         "Bit-exact comparison; part of the pairs run in new interpreters with other hash seeds."),
 "C10": ("life histories with failures and crashes; every sample compared with the recorded user evaluations",
         "Values are recomputed by the simulator's pure likelihood; latent coordinates checked through an independent implementation of the transforms to a tolerance."),
 "C11": ("life histories; recorder of real evaluations as oracle for reported counts",
         "Evaluations counted in user code, carried over restarts as of the checkpoint resumed from."),
 "C12": ("exception injection at seeded evaluations (likelihood, prior, pool), state equality and completion after retry",
         "Exceptions are raised by user code/pool; StopIteration (which Python's map protocol itself consumes) is not injected."),
 "C13": ("life histories against the stopping rule and the temperature ladder invariants",
         "Effective and unique sizes are recomputed independently from the recorded history."),
 "C14": ("life histories against a reference implementation of persistent sampling",
         "Independent reference in sim/ref.py and sim/oracle.py, agreement to 1e-6 relative."),
 "C15": ("seeded interleaving of several samplers in one process, each against its solo run",
         "Interleaving points are likelihood and prior evaluations and storage operations; random stream switched with the sampler."),
 "C16": ("seeded ensembles of simulated runs (with crashes and resumes) against exact posterior and evidence",
         "A statistical decision over a fixed ensemble of seeds per configuration cell: biases smaller than the stated tolerance, or in configurations outside the cells, are not detected."),
 "C17": ("fault injection of invalid likelihood values in regions, sporadically and by phase",
         "Invalid values injected by user code, minus infinity and NaN."),
 "C18": ("life histories with observation at evaluations; append-only history model",
         "Observed between and during operations, including inside likelihood evaluations."),
 "C19": ("queried run against never-queried twin; returned arrays overwritten by the simulator",
         "Bit-exact equality with the twin under the same random stream."),
}
NA = {
 "C20": "Pure function of its arguments (no schedule, clock, I/O or process life to simulate); its use along runs is covered by C10 and C16.",
 "C21": "Pure function of weights and inputs; nothing for a schedule or a fault to act on. Consequences for results are covered by C16.",
 "C22": "Pure function of its arguments; nothing for a schedule or a fault to act on. Use along runs is covered by C10 and C16.",
 "C23": "Pure functions of a weight vector, data and one random draw; nothing for a schedule or a fault to act on. Consequences for results are covered by C14 and C16.",
}
import os, sys
have = [p for p in sorted(C) if os.path.exists("props/%s.py" % p.lower())]
m = dict(version=1, setup_cmd="/opt/venv/bin/python check.py --help > /dev/null",
         checks=[dict(property=p, quick_cmd=PY % (p, "quick"), thorough_cmd=PY % (p, "thorough"), evidence_file="evidence/%s.json" % p,
                      technique="deterministic simulation with fault injection: " + C[p][0], level="exploration", level_note=BASE + C[p][1]) for p in have],
         not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items())] +
                        [dict(property=p, reason="check under construction") for p in sorted(C) if p not in have],
         notes="No hooks in /repo: the seams are module attributes, user-supplied callables, the filesystem calls and a simulated mpi4py. Replay: check.py Cxx --replay FILE.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
