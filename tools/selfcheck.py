"""setup: the verifier and both interpreters are present"""
import subprocess, sys, os
import z3
subprocess.check_call([os.environ.get('DV_PY', '/opt/venv/bin/python'), '-B', '-c', 'import jax, numpy, scipy, basix'], env=dict(os.environ, JAX_PLATFORMS='cpu'))
print('z3', z3.get_version_string())
