"""Runtime environment of the concrete (bounded) checks: double precision, CPU, quiet."""
import os
import sys
import warnings

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

import jax  # noqa: E402

jax.config.update("jax_enable_x64", True)

import jaxfg  # noqa: E402,F401
