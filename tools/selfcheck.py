"""setup_cmd: the interpreter and libraries the checks need are there."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common  # noqa: sets the environment
import numpy, scipy.optimize, torch, ode, pygame  # noqa
import lcp_physics.physics.world  # noqa
print('python', sys.version.split()[0], 'torch', torch.__version__, 'numpy', numpy.__version__)
