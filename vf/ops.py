"""Catalogue of multilinear operations: API call, symbolic operator name, and reference definition"""
from vf.ref import Ref, add, popcount, scale, sel_grades

# each entry: name -> (arity, [operator factory names], method on multivectors or None, reference(ref) -> fn)
def _p(f):
	return f

UNARY = {
	'reverse': (['reverse'], 'reverse', lambda r: r.rev),
	'involute': (['involute'], 'involute', lambda r: r.invol),
	'conjugate': (['conjugate'], 'conjugate', lambda r: r.conj),
	'scalar_negation': (['scalar_negation'], 'scalar_negation', lambda r: r.scalar_neg),
	'study_conjugate': (['study_conjugate'], 'study_conjugate', lambda r: r.scalar_neg),
	'pseudoscalar_negation': (['pseudoscalar_negation'], 'pseudoscalar_negation', lambda r: r.pss_neg),
	'dual': (['dual', 'right_hodge'], 'dual', lambda r: r.rhodge),
	'dual_inverse': (['dual_inverse', 'right_hodge_inverse'], 'dual_inverse', lambda r: r.rhodge_inv),
	'left_hodge': (['left_hodge'], None, lambda r: r.lhodge),
	'left_hodge_inverse': (['left_hodge_inverse'], None, lambda r: r.lhodge_inv),
	'right_complement': (['right_complement'], None, lambda r: r.rcomp),
	'left_complement': (['left_complement'], None, lambda r: r.lcomp),
	'right_complement_dual': (['right_complement_dual'], None, lambda r: r.rcdual),
	'left_complement_dual': (['left_complement_dual'], None, lambda r: r.lcdual),
	'degenerate': (['degenerate'], 'degenerate', lambda r: r.deg),
	'nondegenerate': (['nondegenerate'], 'nondegenerate', lambda r: r.nondeg),
	'identity': (['identity'], None, lambda r: (lambda a: a)),
}
GRADED = {
	'wedge': (['wedge', 'op', 'outer', 'outer_product', 'wedge_product'], ['wedge', 'outer', '__xor__'], lambda r: r.wedge),
	'inner': (['inner', 'ip', 'inner_product'], ['inner', '__or__'], lambda r: r.inner),
	'scalar_product': (['scalar_product', 'sp', 'dp', 'dot', 'scalar', 'dot_product'], ['scalar_product'], lambda r: r.scalar),
	'left_contract': (['left_contract', 'lc', 'left_contraction_product'], ['left_contract'], lambda r: r.lc),
	'right_contract': (['right_contract', 'rc', 'right_contraction_product'], ['right_contract'], lambda r: r.rc),
	'bivector_product': (['bivector_product'], ['bivector_product'], lambda r: r.gprod(2)),
	'trivector_product': ([], ['trivector_product'], lambda r: r.gprod(3)),
	'commutator': (['commutator', 'commutator_product'], ['commutator', 'commutator_product'], lambda r: (lambda a, b: r.commutator(a, b))),
	'anti_commutator': (['anti_commutator', 'anti_commutator_product'], ['anti_commutator', 'anti_commutator_product'],
		lambda r: (lambda a, b: r.commutator(a, b, sign=+1))),
}
PRODUCT = {
	'product': (['product', 'gp', 'geometric_product'], ['product', '__mul__'], lambda r: r.mul),
}
ANTI = {
	'anti_product': (['anti_product', 'agp', 'anti_geometric_product'], ['anti_product'], lambda r: r.agp),
	'anti_wedge': (['anti_wedge', 'aop', 'anti_outer', 'anti_outer_product', 'anti_wedge_product'], ['anti_wedge'], lambda r: r.awedge),
	'anti_inner': (['anti_inner', 'aip', 'anti_inner_product'], ['anti_inner'], lambda r: r.antify(r.inner)),
	'anti_scalar': (['anti_scalar', 'asp', 'adp', 'anti_dot', 'anti_dot_product', 'anti_scalar_product'], [], lambda r: r.antify(r.scalar)),
	'left_interior': (['left_interior', 'lip', 'left_interior_product'], [], lambda r: r.lip),
	'right_interior': (['right_interior', 'rip', 'right_interior_product'], [], lambda r: r.rip),
	'anti_left_interior': (['anti_left_interior', 'alip', 'anti_left_interior_product'], [], lambda r: r.antify(r.lip)),
	'anti_right_interior': (['anti_right_interior', 'arip', 'anti_right_interior_product'], [], lambda r: r.antify(r.rip)),
	'regressive': (['regressive', 'rp', 'regressive_product'], ['regressive', '__and__'], lambda r: r.regressive),
	'cross': (['cross_product'], ['cross'], lambda r: (lambda a, b: r.rhodge(r.wedge(a, b)))),
	'commutator_anti': (['commutator_anti', 'commutator_anti_product'], ['commutator_anti', 'commutator_anti_product'],
		lambda r: (lambda a, b: r.commutator(a, b, op=r.agp))),
	'anti_commutator_anti': (['anti_commutator_anti', 'anti_commutator_anti_product'], ['anti_commutator_anti', 'anti_commutator_anti_product'],
		lambda r: (lambda a, b: r.commutator(a, b, op=r.agp, sign=+1))),
	'anti_reverse_product': (['anti_reverse_product'], ['anti_reverse_product'],
		lambda r: r.antify(lambda a, b: r.mul(a, r.rev(b)))),
}
INVPROD = {
	'reverse_product': (['reverse_product'], ['reverse_product'], lambda r: (lambda a, b: r.mul(a, r.rev(b)))),
	'involute_product': (['involute_product'], ['involute_product'], lambda r: (lambda a, b: r.mul(a, r.invol(b)))),
	'conjugate_product': (['conjugate_product'], ['conjugate_product'], lambda r: (lambda a, b: r.mul(a, r.conj(b)))),
	'scalar_negation_product': (['scalar_negation_product'], ['scalar_negation_product'], lambda r: (lambda a, b: r.mul(a, r.scalar_neg(b)))),
	'pseudoscalar_negation_product': (['pseudoscalar_negation_product'], ['pseudoscalar_negation_product'], lambda r: (lambda a, b: r.mul(a, r.pss_neg(b)))),
	'study_conjugate_product': (['study_conjugate_product'], [], lambda r: (lambda a, b: r.mul(a, r.scalar_neg(b)))),
}
# fused operators, applied to repeated operands. (number of repeats, factory names, method, ref of one operand)
SYMMETRIC = {
	'squared': (2, ['squared'], 'squared', lambda r: (lambda a: r.mul(a, a))),
	'symmetric_reverse_product': (2, ['symmetric_reverse_product'], 'symmetric_reverse_product', lambda r: (lambda a: r.mul(a, r.rev(a)))),
	'symmetric_involute_product': (2, ['symmetric_involute_product'], 'symmetric_involute_product', lambda r: (lambda a: r.mul(a, r.invol(a)))),
	'symmetric_conjugate_product': (2, ['symmetric_conjugate_product'], 'symmetric_conjugate_product', lambda r: (lambda a: r.mul(a, r.conj(a)))),
	'symmetric_scalar_negation_product': (2, ['symmetric_scalar_negation_product', 'symmetric_study_conjugate_product'], 'symmetric_scalar_negation_product', lambda r: (lambda a: r.mul(a, r.scalar_neg(a)))),
	'symmetric_pseudoscalar_negation_product': (2, ['symmetric_pseudoscalar_negation_product'], 'symmetric_pseudoscalar_negation_product', lambda r: (lambda a: r.mul(a, r.pss_neg(a)))),
	'study_norm_squared_op': (2, ['study_norm_squared'], None, lambda r: (lambda a: r.scalar(a, r.scalar_neg(a)))),
	'cubed': (3, ['cubed'], None, lambda r: (lambda a: r.prods(a, a, a))),
	'inverse_factor': (3, ['inverse_factor'], 'inverse_factor', lambda r: r.inverse_factor),
	'inverse_factor_alt': (3, ['inverse_factor_alt'], None, lambda r: (lambda a: r.inverse_factor(a, r.scalar_neg))),
	'inverse_factor_completed': (4, ['inverse_factor_completed'], None, lambda r: (lambda a: r.mul(r.mul(a, r.rev(a)), r.conj(r.mul(a, r.rev(a)))))),
	'inverse_factor_completed_alt': (4, ['inverse_factor_completed_alt'], None, lambda r: (lambda a: r.mul(r.mul(a, r.rev(a)), r.scalar_neg(r.mul(a, r.rev(a)))))),
}
# (R, v) -> op(R, v, R)
def _grades_of(v):
	return {popcount(m) for m in v}


def sandwich(r):
	return lambda R, v: sel_grades(r.full_sandwich(R, v), _grades_of(v))


def reverse_sandwich(r):
	return lambda R, v: sel_grades(r.full_sandwich(r.rev(R), v), _grades_of(v))


def transform(r):
	def f(R, v):
		par, = {popcount(m) % 2 for m in R}
		s = {m: x * (-1) ** (popcount(m) * par) for m, x in v.items()}
		return sel_grades(r.full_sandwich(R, s), _grades_of(v))
	return f


def inverse_transform(r):
	return lambda R, v: transform(r)(r.rev(R), v)


SANDWICH = {
	'full_sandwich': (['full_sandwich'], ['full_sandwich'], lambda r: r.full_sandwich),
	'sandwich': (['sandwich'], ['sandwich', '__rshift__'], sandwich),
	'reverse_sandwich': (['reverse_sandwich'], ['reverse_sandwich', '__lshift__'], reverse_sandwich),
	'transform': (['transform'], ['transform'], transform),
	'inverse_transform': (['inverse_transform'], ['reverse_transform'], inverse_transform),
}
