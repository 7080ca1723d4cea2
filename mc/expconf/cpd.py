"""tiny experiments for scripts/cpd-backflow: get_config(NAME)"""
from ml_collections import ConfigDict


def get_config(name="hubbard"):
    if name.startswith("hubbard"):
        from cpd_backflow.configs.fermi_hubbard import get_config as base
        c = base()
        c.system.Lx = 3
        c.system.Ly = 1
        with c.ignore_type():
            c.system.pbc = False
        c.system.n_elec = (1, 1)
        n = 9
    elif name.startswith("hsheet"):
        from cpd_backflow.configs.hsheet import get_config as base
        c = base()
        c.system.n_atoms = 2
        c.system.distance = 1.3
        c.model.exchange_cutoff = 1
        n = 4
    elif name.startswith("rdm"):  # rdm-h2, rdm-h4: an optimisation of one step, then density matrices in two chunks
        from cpd_backflow.configs.h2o import get_config as base
        c = base()
        k = int(name[5:].split("/")[0])
        c.system.molecule = [("H", (0.0, 0.3 * (i % 2), 1.1 * i)) for i in range(k)]
        c.system.basis_set = "sto-3g" if k > 2 else "6-31g"
        c.system.symmetry = False
        c.model.M = 1
        c.model.sigma = 0.2
        if name.endswith("complex"):
            c.model.dtype = "complex"
            c.optimizer.mode = "complex"
        n = {2: 16, 4: 36}[k]
        c.total_steps, c.checkpoint_every, c.progress_every = 1, 1, 100
        c.variational_state.n_samples = n
        c.variational_state.n_discard_per_chain = 0
        c.variational_state.seed = 5
        c.sampler.n_chains_per_rank = 1
        c.optimizer_name = "SR"
        c.descent_finishing = ConfigDict()
        c.evaluate.total_steps = 1
        c.evaluate.n_samples = n
        c.evaluate.chunk_size = n // 2
        if name.endswith("whole"):  # no chunks (the default of the configurations)
            c.evaluate.chunk_size = None
        if name.endswith("ragged"):  # NetKet draws a multiple of the number of chains
            c.sampler.n_chains_per_rank = 4
            c.evaluate.n_samples, c.evaluate.chunk_size = 12, 3
        return c
    else:
        from cpd_backflow.configs.h2o import get_config as base
        c = base()
        c.system.molecule = [("H", (0.0, 0.0, 0.0)), ("H", (0.0, 0.3, 0.9))]
        c.system.basis_set = "sto-3g"
        c.optimizer_name = "SR"
        n = 4
    c.total_steps = 2 if name == "h2" else 3
    c.checkpoint_every = 1 if name == "h2" else 2
    c.progress_every = 100
    c.variational_state.n_samples = n
    c.variational_state.n_discard_per_chain = 0
    c.variational_state.seed = 5
    c.sampler.n_chains_per_rank = 1
    c.descent_finishing.total_steps = 2
    c.evaluate.total_steps = 1
    c.evaluate.n_samples = n
    c.evaluate.chunk_size = n
    if name == "h2":
        c.descent_finishing = ConfigDict()
    if name != "hubbard":
        c.evaluate = ConfigDict()
    return c
