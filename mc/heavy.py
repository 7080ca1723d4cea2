"""from mc.heavy import *: the code under test, imported from /repo in worker processes only."""
import os

if not os.environ.get("MC_PARENT"):
    import jax

    jax.config.update("jax_enable_x64", True)
    from mc import rng  # has to see jax.random before anybody else

    rng.install()
    import jax.numpy as jnp
    import netket as nk
    import flax
    import GPSKet
    import GPSKet as gk
    import GPSKet.operator.hamiltonian as gham
    import GPSKet.models as gmod
    from GPSKet.hilbert import FermionicDiscreteHilbert

    here = os.path.dirname(os.path.abspath(GPSKet.__file__))
    assert here == "/repo/GPSKet", here
