"""Construction of contexts on every backend and execution strategy; imports happen inside job processes only"""
import numpy as np


def make(name, alg):
	"""name is backend/strategy/dtype"""
	b, s, d = name.split('/')
	if b == 'numpy':
		from numga.backend.numpy.context import NumpyContext
		from numga.backend.numpy import operator as o
		return NumpyContext(alg, otype=getattr(o, f'Numpy{s}Operator'), dtype=getattr(np, d))
	if b == 'jax':
		import jax
		if d == 'float64':
			jax.config.update('jax_enable_x64', True)
		import jax.numpy as jnp
		from numga.backend.jax.context import JaxContext
		from numga.backend.jax import operator as o
		return JaxContext(alg, otype=getattr(o, f'Jax{s}Operator'), dtype=getattr(jnp, d))
	if b == 'torch':
		import torch
		torch.set_num_threads(1)
		from numga.backend.torch.context import TorchContext
		from numga.backend.torch import operator as o
		return TorchContext(alg, otype=getattr(o, f'Torch{s}Operator'), dtype=getattr(torch, d))
	if b == 'python':
		from numga.backend.python.context import PythonContext
		from numga.backend.python import operator as o
		return PythonContext(alg, otype=getattr(o, f'Python{s}Operator'))
	raise ValueError(name)


ALL = [
	'numpy/Einsum/float64', 'numpy/Einsum/float32', 'numpy/Sparse/float64', 'numpy/Sparse/float32',
	'jax/Einsum/float32', 'jax/Dense/float32', 'jax/Sparse/float32',
	'torch/Einsum/float32', 'torch/Dense/float32', 'torch/Sparse/float32',
	'torch/Einsum/float64', 'torch/Dense/float64', 'torch/Sparse/float64',
	'python/Sparse/float', 'python/Codegen/float',
]
JAX64 = ['jax/Einsum/float64', 'jax/Dense/float64', 'jax/Sparse/float64']


def eps(name):
	return 2 ** -23 if name.endswith('float32') else 2 ** -52


def array(ctx, x):
	"""backend native array"""
	return ctx.coerce_array(np.asarray(x))
