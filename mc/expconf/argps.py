"""tiny experiments for scripts/ARGPS: get_config(NAME)"""


def get_config(name="hubbard"):
    if name.startswith("hubbard"):
        from argps.configs.hubbard1d import get_config as base
        c = base()
        c.system.Lx = 2
        c.system.U = 3.0
        c.model.M = 1
        c.variational_state.n_samples = 4
    elif name.startswith("heisenberg"):
        from argps.configs.heisenberg2d import get_config as base
        c = base("GPS")
        with c.ignore_type():
            c.system.Ly = None
        c.system.Lx = 4
        c.model.symmetries = "all"
        c.variational_state.n_samples = 6
        c.variational_state.n_discard_per_chain = 0
    else:
        from argps.configs.hydrogen import get_config as base
        c = base("chain,local,complex")
        c.system.n_atoms = 2
        c.model.M = 1
        c.variational_state.n_samples = 4
    c.max_steps = 3
    c.checkpoint_every = 2
    c.progress_every = 2
    c.variational_state.seed = 5
    return c
