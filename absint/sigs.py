"""Required parameter names of the modelled numpy/scipy functions, so that
keyword calls reach the positional models."""
SIGS = {'numpy.all': 'a',
 'numpy.allclose': 'a b rtol atol equal_nan',
 'numpy.amax': 'a',
 'numpy.amin': 'a',
 'numpy.angle': 'z',
 'numpy.any': 'a',
 'numpy.append': 'arr values',
 'numpy.argmax': 'a',
 'numpy.argmin': 'a',
 'numpy.argsort': 'a',
 'numpy.argwhere': 'a',
 'numpy.around': 'a',
 'numpy.array': 'object',
 'numpy.array_equal': 'a1 a2',
 'numpy.array_equiv': 'a1 a2',
 'numpy.array_split': 'ary indices_or_sections',
 'numpy.asanyarray': 'a',
 'numpy.asarray': 'a',
 'numpy.asarray_chkfinite': 'a',
 'numpy.ascontiguousarray': 'a',
 'numpy.asfortranarray': 'a',
 'numpy.average': 'a',
 'numpy.block': 'arrays',
 'numpy.broadcast_to': 'array shape',
 'numpy.clip': 'a a_min a_max',
 'numpy.column_stack': 'tup',
 'numpy.convolve': 'a v',
 'numpy.copy': 'a',
 'numpy.copyto': 'dst src',
 'numpy.count_nonzero': 'a',
 'numpy.cumprod': 'a',
 'numpy.cumsum': 'a',
 'numpy.delete': 'arr obj',
 'numpy.diag': 'v',
 'numpy.diag_indices': 'n',
 'numpy.diagflat': 'v',
 'numpy.diagonal': 'a',
 'numpy.diff': 'a',
 'numpy.digitize': 'x bins',
 'numpy.dot': 'a b',
 'numpy.dstack': 'tup',
 'numpy.dtype': 'dtype',
 'numpy.empty': 'shape',
 'numpy.empty_like': 'prototype',
 'numpy.expand_dims': 'a axis',
 'numpy.eye': 'N',
 'numpy.fill_diagonal': 'a val',
 'numpy.finfo': 'dtype',
 'numpy.fix': 'x',
 'numpy.flatnonzero': 'a',
 'numpy.flip': 'm',
 'numpy.fliplr': 'm',
 'numpy.flipud': 'm',
 'numpy.frompyfunc': 'func nin nout',
 'numpy.full': 'shape fill_value',
 'numpy.full_like': 'a fill_value',
 'numpy.geomspace': 'start stop',
 'numpy.hsplit': 'ary indices_or_sections',
 'numpy.hstack': 'tup',
 'numpy.identity': 'n',
 'numpy.iinfo': 'int_type',
 'numpy.imag': 'val',
 'numpy.in1d': 'ar1 ar2',
 'numpy.indices': 'dimensions',
 'numpy.inner': 'a b',
 'numpy.insert': 'arr obj values',
 'numpy.interp': 'x xp fp',
 'numpy.intersect1d': 'ar1 ar2',
 'numpy.isclose': 'a b rtol atol equal_nan',
 'numpy.iscomplex': 'x',
 'numpy.iscomplexobj': 'x',
 'numpy.isin': 'element test_elements',
 'numpy.isreal': 'x',
 'numpy.isrealobj': 'x',
 'numpy.isscalar': 'element',
 'numpy.issubdtype': 'arg1 arg2',
 'numpy.kron': 'a b',
 'numpy.linalg.cholesky': 'a',
 'numpy.linalg.cond': 'x',
 'numpy.linalg.det': 'a',
 'numpy.linalg.eig': 'a',
 'numpy.linalg.eigh': 'a',
 'numpy.linalg.eigvals': 'a',
 'numpy.linalg.eigvalsh': 'a',
 'numpy.linalg.inv': 'a',
 'numpy.linalg.lstsq': 'a b',
 'numpy.linalg.matrix_power': 'a n',
 'numpy.linalg.matrix_rank': 'A',
 'numpy.linalg.multi_dot': 'arrays',
 'numpy.linalg.norm': 'x',
 'numpy.linalg.pinv': 'a',
 'numpy.linalg.qr': 'a',
 'numpy.linalg.solve': 'a b',
 'numpy.linalg.svd': 'a',
 'numpy.linspace': 'start stop',
 'numpy.logspace': 'start stop',
 'numpy.max': 'a',
 'numpy.may_share_memory': 'a b',
 'numpy.mean': 'a',
 'numpy.min': 'a',
 'numpy.moveaxis': 'a source destination',
 'numpy.msort': 'a',
 'numpy.nan_to_num': 'x',
 'numpy.nanargmax': 'a',
 'numpy.nanargmin': 'a',
 'numpy.nanmax': 'a',
 'numpy.nanmin': 'a',
 'numpy.nansum': 'a',
 'numpy.ndenumerate': 'arr',
 'numpy.ndim': 'a',
 'numpy.nditer': 'op',
 'numpy.nonzero': 'a',
 'numpy.ones': 'shape',
 'numpy.ones_like': 'a',
 'numpy.outer': 'a b',
 'numpy.place': 'arr mask vals',
 'numpy.poly': 'seq_of_zeros',
 'numpy.polyadd': 'a1 a2',
 'numpy.polyder': 'p',
 'numpy.polydiv': 'u v',
 'numpy.polyfit': 'x y deg',
 'numpy.polyint': 'p',
 'numpy.polymul': 'a1 a2',
 'numpy.polysub': 'a1 a2',
 'numpy.polyval': 'p x',
 'numpy.prod': 'a',
 'numpy.promote_types': 'type1 type2',
 'numpy.put': 'a ind v',
 'numpy.put_along_axis': 'arr indices values axis',
 'numpy.putmask': 'a mask values',
 'numpy.random.set_state': 'state',
 'numpy.ravel': 'a',
 'numpy.real': 'val',
 'numpy.real_if_close': 'a',
 'numpy.repeat': 'a repeats',
 'numpy.reshape': 'a newshape',
 'numpy.roll': 'a shift',
 'numpy.rollaxis': 'a axis',
 'numpy.roots': 'p',
 'numpy.round': 'a',
 'numpy.row_stack': 'tup',
 'numpy.searchsorted': 'a v',
 'numpy.setdiff1d': 'ar1 ar2',
 'numpy.shape': 'a',
 'numpy.shares_memory': 'a b',
 'numpy.size': 'a',
 'numpy.sort': 'a',
 'numpy.sort_complex': 'a',
 'numpy.split': 'ary indices_or_sections',
 'numpy.squeeze': 'a',
 'numpy.stack': 'arrays',
 'numpy.sum': 'a',
 'numpy.swapaxes': 'a axis1 axis2',
 'numpy.take': 'a indices',
 'numpy.tensordot': 'a b',
 'numpy.tile': 'A reps',
 'numpy.trace': 'a',
 'numpy.transpose': 'a',
 'numpy.tril': 'm',
 'numpy.trim_zeros': 'filt',
 'numpy.triu': 'm',
 'numpy.union1d': 'ar1 ar2',
 'numpy.unique': 'ar',
 'numpy.unwrap': 'p',
 'numpy.vdot': 'a b',
 'numpy.vsplit': 'ary indices_or_sections',
 'numpy.vstack': 'tup',
 'numpy.where': 'condition',
 'numpy.zeros': 'shape',
 'numpy.zeros_like': 'a',
 'scipy.linalg.cho_solve': 'c_and_lower b',
 'scipy.linalg.cholesky': 'a',
 'scipy.linalg.companion': 'a',
 'scipy.linalg.cosm': 'A',
 'scipy.linalg.det': 'a',
 'scipy.linalg.eig': 'a',
 'scipy.linalg.eigh': 'a',
 'scipy.linalg.eigvals': 'a',
 'scipy.linalg.eigvalsh': 'a',
 'scipy.linalg.expm': 'A',
 'scipy.linalg.hankel': 'c',
 'scipy.linalg.hessenberg': 'a',
 'scipy.linalg.inv': 'a',
 'scipy.linalg.logm': 'A',
 'scipy.linalg.lstsq': 'a b',
 'scipy.linalg.lu': 'a',
 'scipy.linalg.lu_solve': 'lu_and_piv b',
 'scipy.linalg.matrix_balance': 'A',
 'scipy.linalg.norm': 'a',
 'scipy.linalg.null_space': 'A',
 'scipy.linalg.ordqz': 'A B',
 'scipy.linalg.orth': 'A',
 'scipy.linalg.pinv': 'a',
 'scipy.linalg.qr': 'a',
 'scipy.linalg.qz': 'A B',
 'scipy.linalg.rq': 'a',
 'scipy.linalg.schur': 'a',
 'scipy.linalg.signm': 'A',
 'scipy.linalg.sinm': 'A',
 'scipy.linalg.solve': 'a b',
 'scipy.linalg.solve_continuous_are': 'a b q r',
 'scipy.linalg.solve_continuous_lyapunov': 'a q',
 'scipy.linalg.solve_discrete_are': 'a b q r',
 'scipy.linalg.solve_discrete_lyapunov': 'a q',
 'scipy.linalg.solve_lyapunov': 'a q',
 'scipy.linalg.solve_sylvester': 'a b q',
 'scipy.linalg.solve_triangular': 'a b',
 'scipy.linalg.sqrtm': 'A',
 'scipy.linalg.svd': 'a',
 'scipy.linalg.svdvals': 'a',
 'scipy.linalg.toeplitz': 'c',
 'scipy.signal.deconvolve': 'signal divisor'}
