"""Contracts of the functions a property builds on are evaluated by its own check as well: the cases of the
neighbouring property that exercise them are run here in smaller number."""
import importlib

from . import common

SHARED = {
    'C01': [('C02', ('discrete_polynomial', 'discrete_bloch'))],
    'C02': [('C06', ('algebra_in_both_forms',)), ('C05', ('matrix_products', 'maps', 'add_sub_neg'))],
    'C04': [('C03', ('equality', 'equivalence_laws')), ('C01', ('product_parts', 'inverse_parts'))],
    'C05': [('C06', ('algebra_in_both_forms', 'hopping_dict')), ('C20', ('from_dict',))],
    'C06': [('C05', ('add_sub_neg', 'add_constant', 'scalar_multiples', 'matrix_products', 'elementwise_products',
                     'maps', 'equality', 'rejection', 'keep_filter', 'bloch_coefficients')),
            ('C02', ('discrete_bloch', 'discrete_symbolic_periodic', 'rotation_of_models'))],
    'C09': [('C08', ('matrix_equations', 'simultaneous_diagonalization')), ('C10', ('reduction',)),
            ('C03', ('equality', 'proportional_to_identity'))],
    'C10': [('C08', ('matrix_equations', 'simultaneous_diagonalization', 'nullspace_dense', 'bases')),
            ('C09', ('planted',))],
    'C11': [('C02', ('continuous', 'continuous_bloch_onsite')), ('C08', ('nullspace_dense', 'matrix_equations')),
            ('C10', ('reduction',))],
    'C12': [('C02', ('continuous', 'discrete_polynomial')), ('C08', ('nullspace_dense', 'family_vectors_faithful', 'bases')),
            ('C15', ('pretty', 'combine'))],
    'C13': [('C12', ('continuum_family', 'momentum_variables'))],
    'C14': [('C15', ('symmetrize', 'duplicates', 'combine')), ('C02', ('discrete_bloch',)),
            ('C08', ('family_vectors_faithful',))],
    'C15': [('C08', ('family_vectors_faithful', 'nullspace_dense')), ('C02', ('continuous', 'discrete_bloch'))],
    'C16': [('C17', ('lll', 'reducedness', 'cvp', 'cvp_groups', 'voronoi'))],
    'C18': [('C04', ('known_point_groups',)), ('C01', ('factories_commute_with_products',))],
    'C20': [('C05', ('add_sub_neg', 'scalar_multiples', 'maps', 'rounding_and_small_terms')),
            ('C06', ('from_strings', 'substitution_in_both_forms', 'accept_hoppings'))],
}
DIVIDE = 3


def register(prop):
    for other, names in SHARED.get(prop, ()):
        importlib.import_module('rt.' + other.lower())
        f = common.SCALE.get(other, 1) / common.SCALE.get(prop, 1)
        for e in list(common.REGISTRY[other]):
            if e['name'] in names and not e['name'].startswith(other):
                common.REGISTRY[prop].append(dict(e, name=other + '.' + e['name'],
                                                  n=max(5, round(e['n'] * f / DIVIDE))))
