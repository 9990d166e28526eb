X = 'exploration'
PROPS = {
 'C01': dict(module='c01', level=X, required={'full_compare': 500}),
 'C02': dict(module='c02', level=X, required={'queries': 500}),
 'C03': dict(module='c03', level=X, required={'full_compare': 500}),
 'C04': dict(module='c04', level=X, required={'id_lookups': 500}),
 'C05': dict(module='c05', level=X, required={'vectors_compared': 500}),
 'C06': dict(module='c06', level=X, required={'round_trip': 100}),
 'C08': dict(module='c08', level=X, required={'loaded_db': 100}),
 'C07': dict(module='c07', level=X, required={'all_released': 100, 'crashes': 20}),
 'C09': dict(module='c09', level=X, required={'failures': 100}),
 'C10': dict(module='c10', level=X, required={'observed_thread_switches': 100}),
 'C11': dict(module='c11', level=X, required={'sampled': 100}),
 'C12': dict(module='c12', level=X, required={'split_leave_k_out': 100}),
 'C13': dict(module='c13', level=X, required={'users_checked': 100}),
 'C14': dict(module='c14', level=X, required={'matrix_checked': 100}),
 'C15': dict(module='c15', level=X, required={'distinct_schedules': 50}),
 'C16': dict(module='c16', level=X, required={'samples': 500, 'ratio_checked': 3}),
 'C17': dict(module='c17', level=X, required={'sequences': 200, 'truncated': 20}),
 'C18': dict(module='c18', level=X, required={'metric_values': 5000, 'threads': 5}),
 'C19': dict(module='c19', level=X, required={'samples_checked': 100, 'results_checked': 200, 'schedules': 100}),
 'C20': dict(module='c20', level=X, required={'users_checked': 100, 'results_checked': 200, 'schedules': 100}),
 'C21': dict(module='c21', level=X, required={'evaluated': 100, 'error_reported': 5}),
 'C23': dict(module='c23', level=X, required={'predicted': 1000, 'average': 50, 'no_prediction': 200}),
 'C24': dict(module='c24', level=X, required={'similarities': 5000, 'aggregations': 500}),
 'C22': dict(module='c22', level=X, required={'rankings': 500, 'recommendations': 300, 'threads': 10}),
 'C25': dict(module='c25', level=X, required={'replayed': 20, 'deep_fitted': 5, 'callbacks': 50}),
 'C26': dict(module='c26', level=X, required={'trained': 50, 'reverted': 20, 'stopped': 5, 'computed': 50}),
 'C27': dict(module='c27', level=X, required={'other_process': 50}),
 'C28': dict(module='c28', level=X, required={'loaded': 30, 'loaded_elsewhere': 20, 'loaded_unfitted': 3}),
 'C29': dict(module='c29', level=X, required={'generated': 50, 'stopped_lines': 20, 'stopped_files': 20, 'failed_downloads': 10}),
 'C30': dict(module='c30', level=X, required={'losses': 40, 'scored_CDAE': 5, 'scored_DMF': 5, 'scored_Caser': 5, 'information_CDAE': 5, 'information_DMF': 5, 'information_Caser': 5, 'learned_CDAE': 4, 'learned_DMF': 4, 'learned_Caser': 4}),
 'C31': dict(module='c31', level=X, required={'trainings': 30, 'loss_graphs': 50, 'log_files': 30, 'evaluation_graphs': 20, 'quiet_operations': 100, 'loud_datasets': 15}),
 'C32': dict(module='c32', level=X, required={'calls': 500, 'deep': 10}),
 'C33': dict(module='c33', level=X, required={'refused': 500}),
}

import os as _os, sys as _sys
_sys.path.insert(0, _os.path.join(_os.path.dirname(_os.path.dirname(_os.path.abspath(__file__))), 'tools'))
from specs import SPECS as _SPECS  # noqa: E402
for _s in _SPECS:
    PROPS[_s['doc']['id']].update(rule=_s['rule'], assumptions=_s['assumptions'])
for _k in PROPS: PROPS[_k].setdefault('rule', 'a case is non-trivial if it observed a new state')
