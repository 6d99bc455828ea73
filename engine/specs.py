from vlib import Unit, CORE
PROPS = {}
def prop(pid, units, explanation='', assumptions=(), **kw):
    PROPS[pid] = dict(units=units, explanation=explanation, assumptions=list(assumptions), **kw)
P = ['sources/core/params.cpp']
prop('P01', [Unit('roundtrip', 'params.cpp', 'h_roundtrip', P, split={'p': 22})])
prop('P02', [Unit('unit', 'params.cpp', 'h_unit', P, split={'p': 22})])
prop('P03', [Unit('vectors', 'params.cpp', 'h_vectors', P, split={'p': [9,10,13,14,16,17,18,19,20]})])
prop('P04', [Unit('names', 'registry.cpp', 'h_names', P), Unit('parse_in', 'registry.cpp', 'h_parse', P, split={'p': 23, 'q': [0]}), Unit('parse_out', 'registry.cpp', 'h_parse', P, split={'p': [0], 'q': [1,2,3,4]}),
  Unit('output', 'registry.cpp', 'h_output', P, split={'n': 5, 'm': 5}), Unit('exact', 'registry.cpp', 'h_exact', P, split={'p': 22}),
  Unit('convert', 'registry.cpp', 'h_convert', P, split={'p': 22, 'q': [0, 10, 20]}, tiers=('quick',)),
  Unit('convert_all', 'registry.cpp', 'h_convert', P, split={'p': 22, 'q': 22}, tiers=('thorough',))])
D = ['sources/core/%s.cpp' % n for n in ('common', 'params', 'data', 'data_storage', 'vertical_segment', 'metrics')]
prop('P08', [Unit('container', 'data.cpp', 'h_container', D, split={'dx': 3, 'dy': 3, 'n': 3, 'kind': 3})])
prop('P09', [Unit('equals', 'data.cpp', 'h_equals', D, split={'dx': 2, 'dy': 2, 'n': 3, 'default': 2, 'mismatch': 6}), Unit('nan', 'data.cpp', 'h_equals_nan', D, mode='fp')])
prop('P10', [Unit('metrics', 'data.cpp', 'h_metrics', D, split={'n': 3, 'dy': 2, 'par': 2})])
ST = ['sources/core/%s.cpp' % n for n in ('common', 'params', 'data', 'data_storage', 'vertical_segment')]
prop('P05', [Unit('text', 'storage.cpp', 'h_text', ST, split={'dx': 4, 'dy': 3, 'n': 3, 'kind': 3})])
prop('P06', [Unit('binary', 'storage.cpp', 'h_binary', ST, mode='fp', split={'dx': 3, 'dy': 3, 'n': 2, 'kind': 3}), Unit('plain', 'storage.cpp', 'h_binary_plain', ST, mode='fp', split={'dx': 3, 'dy': 3, 'n': 2}),
  Unit('truncated', 'storage.cpp', 'h_truncated', ST, mode='fp', split={'kind': 3})])
prop('P07', [Unit('load', 'storage.cpp', 'h_load', ST, split={'dx': 2, 'dy': 2, 'n': 2, 'vs': 3, 'mode': 8, 'filter': 4}), Unit('cosine', 'storage.cpp', 'h_cosine', ST, split={'param': 3, 'dy': 2, 'n': 2, 'mode': 3})])
FN = ['sources/core/%s.cpp' % n for n in ('common', 'params', 'data', 'data_storage', 'vertical_segment', 'function', 'plugins_manager', 'rational_function')]
LOBES = { 'abc': ('nonlinear_function_abc', 'th'), 'beckmann': ('nonlinear_function_beckmann', ''), 'blinn': ('nonlinear_function_blinn', 'th'), 'diffuse': ('nonlinear_function_diffuse', ''),
  'lafortune': ('nonlinear_function_lafortune', ''), 'isotropic_lafortune': ('nonlinear_function_isotropic_lafortune', ''), 'sgd': ('nonlinear_function_sgd', ''), 'spherical_gaussian': ('nonlinear_function_spherical_gaussian', ''),
  'ward': ('nonlinear_function_ward', ''), 'retrobeckmann': ('nonlinear_function_retrobeckmann', ''), 'retroblinn': ('nonlinear_function_retroblinn', 'tk'), 'retroyoo': ('nonlinear_function_retroyoo', ''),
  'fresnel_retroschlick': ('nonlinear_fresnel_retroschlick', ''), 'fresnel_schlick': ('nonlinear_fresnel_schlick', ''), 'fresnel_normalized_schlick': ('nonlinear_fresnel_normalized_schlick', ''),
  'shadowing_schlick': ('nonlinear_shadowing_schlick', ''), 'shadowing_smith': ('nonlinear_shadowing_smith', ''), 'shadowing_walter_smith': ('nonlinear_shadowing_walter_smith', '') }
LDEFS = { '': (), 'th': ('-DLOBE_DX=1', '-DLOBE_IN=params::COS_TH'), 'tk': ('-DLOBE_DX=1', '-DLOBE_IN=params::COS_TK') }
LX = {'sgd': ('-DLOBE_PMIN=0.05',), 'retroyoo': ('-DLOBE_PHASE',)}
def lobe(name, entry, **kw):
    d, k = LOBES[name]
    return Unit(name, 'lobe.cpp', entry, FN + ['sources/plugins/%s/function.cpp' % d], defs=LDEFS[k] + ('-DLOBE_' + name,) + LX.get(name, ()) + kw.pop('defs', ()), **kw)
prop('P13', [lobe(n, 'h_jacobian', split={'dy': [0] if n == 'sgd' else 2}) for n in LOBES])
prop('P14', [lobe(n, 'h_value', split={'dy': [0] if n == 'sgd' else 2}) for n in LOBES if n != 'retroyoo'])
prop('P15', [lobe(n, 'h_store', split={'dy': 2}) for n in LOBES if n != 'sgd'] + [Unit(n + '_constant', 'lobe.cpp', 'h_store', FN + ['sources/plugins/nonlinear_function_%s/function.cpp' % n], defs=('-DLOBE_' + n, '-DLOBE_CONSTANT'), split={'dy': 2}) for n in ('lafortune', 'isotropic_lafortune')])
prop('P11', [Unit('value', 'func.cpp', 'h_sum', FN, split={'parts': [0, 1], 'dy': 2}), Unit('value3', 'func.cpp', 'h_sum', FN, split={'parts': [2], 'dy': 2, 'n0': 3, 'n1': 3, 'in0': [0]}), Unit('set', 'func.cpp', 'h_sum_set', FN, split={'parts': 3, 'dy': [1], 'n0': 3}),
  Unit('store', 'func.cpp', 'h_sum_store', FN, split={'parts': [0, 1], 'dy': [1], 'n0': 3}), Unit('store3', 'func.cpp', 'h_sum_store', FN, split={'parts': [2], 'dy': [1], 'n0': 3, 'n1': 3, 'missing': 4, 'fixed0': [0]}), Unit('init', 'func.cpp', 'h_sum_init', FN, split={'parts': 3, 'dy': [1], 'n0': 3, 'kind': 4})])
prop('P12', [Unit('value', 'func.cpp', 'h_product', FN, split={'dy': 3, 'n0': 3, 'n1': 3}), Unit('store', 'func.cpp', 'h_product_store', FN, split={'dy': [0, 1], 'kind': 5})])
prop('P16', [Unit('distance', 'func.cpp', 'h_distance', FN, split={'n': 3, 'dy': 2, 'conv': 3})])
RF = {'base': [], 'legendre': ['sources/plugins/rational_function_legendre/rational_function.cpp'], 'chebychev': ['sources/plugins/rational_function_chebychev/rational_function.cpp'], 'cosine': ['sources/plugins/rational_function_cosine/rational_function.cpp']}
def rf(name, entry, **kw): return Unit(name, 'rational.cpp', entry, FN + RF[name], defs=('-DRF_' + name,), **kw)
prop('P17', [rf(n, 'h_value', split={'dx': 3, 'size': 4, 'point': 2}) for n in RF] + [Unit('coefficients', 'rational.cpp', 'h_coefficients', FN, split={'dx': 3, 'size': 3})])
prop('P18', [Unit('order', 'rational.cpp', 'h_order', FN, split={'dx': 6})])
prop('P19', [rf(n, 'h_store', split={'dx': 3, 'size': [1, 2], 'point': 2}) for n in RF])
AR = ['sources/core/common.cpp', 'sources/core/params.cpp']
prop('P20', [Unit('words', 'args.cpp', 'h_words', AR, split={'n': [0, 1, 2], 'len0': 4, 'len1': 4}), Unit('mix', 'args.cpp', 'h_mix', AR, split={'n': [0, 1, 2], 'kind0': 5, 'kind1': 5}, tiers=('quick',)), Unit('mix5', 'args.cpp', 'h_mix', AR, split={'n': [3], 'kind0': 5, 'kind1': 5, 'kind2': 5}, tiers=('thorough',), max_paths=20000), Unit('command', 'args.cpp', 'h_command', AR, split={'n': [0, 1], 'kind0': 4, 'kind1': 4}), Unit('command3', 'args.cpp', 'h_command', AR, split={'n': [2], 'kind0': 4, 'kind1': 4, 'kind2': 4}, tiers=('thorough',), max_paths=20000),
  Unit('values', 'args.cpp', 'h_values', AR, split={'n': 5}), Unit('integers', 'args.cpp', 'h_integers', AR), Unit('header', 'args.cpp', 'h_header', AR, split={'n': 4})])
HOOK = ('-include', __import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))) + '/harness/hook_dl.h')
def pm(name, entry, **kw): return Unit(name, 'plugins.cpp', entry, FN, gdefs=HOOK, **kw)
prop('P21', [pm('search', 'h_search', split={'entries': 4, 'suffixed': 2, 'len0': 3, 'len1': 3, 'state0': 3}), pm('names', 'h_names', split={'len': 5}), pm('functions', 'h_functions', split={'parts': 3, 'plugin0': 3, 'fresnel0': 3}), pm('fallback', 'h_fallback', split={'kind': 9}), pm('file', 'h_file'),
  pm('data', 'h_data', split={'kind': 6}), pm('compatible', 'h_compatible')])
def merl(name, entry, **kw): return Unit(name, 'merl.cpp', entry, FN[:6] + ['sources/plugins/data_io/merl.cpp'], **kw)
prop('P22', [merl('load', 'h_load'), merl('lookup', 'h_lookup'), merl('set', 'h_set'), merl('domain', 'h_domain'), merl('cell', 'h_cell', split={'edge': 4, 'sign': 3}), merl('save', 'h_save'), merl('invalid', 'h_invalid', split={'kind': 4}), merl('new', 'h_new')])
def grid(name, entry, **kw): return Unit(name, 'grid.cpp', entry, FN[:6] + ['sources/plugins/data_interpolants/grid.cpp'], **kw)
prop('P23', [grid('nodes', 'h_nodes', split={'domain': 9, 'rgb': 2}), grid('value', 'h_value', split={'domain': 9, 'rgb': [0], 'size': 2, 'how': [0], 'hint': [0]}), grid('value3', 'h_value', split={'domain': [0, 1, 2], 'rgb': [1], 'size': [0], 'how': [1], 'hint': [1]}), grid('node', 'h_node_value', split={'domain': 9, 'rgb': [0], 'size': 2, 'how': [0], 'hint': [0]}),
  grid('outside', 'h_outside', split={'domain': 8, 'rgb': [0], 'size': 2, 'how': [0], 'hint': [0]}), grid('store', 'h_store', split={'domain': 9, 'rgb': 2, 'size': [0], 'how': [0], 'hint': [0]}), grid('default', 'h_default')])
STUB = ('-I', __import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))) + '/harness/stub')
def utia(name, entry, **kw): return Unit(name, 'utia.cpp', entry, FN[:6] + ['sources/plugins/data_io/utia.cpp'], gdefs=STUB, **kw)
prop('P24', [utia('load', 'h_load'), utia('set', 'h_set'), utia('value', 'h_value', split={'axes': 5, 'last': 2}), utia('turn', 'h_turn', split={'which': 3, 'last': 2}), utia('below', 'h_below'), utia('save', 'h_save', split={'image': 2}, max_steps=100000000), utia('invalid', 'h_invalid'), utia('image', 'h_image', split={'kind': 4}), utia('new', 'h_new')])
def slc(name, entry, **kw): return Unit(name, 'slice.cpp', entry, FN[:6] + ['sources/plugins/data_io/slice.cpp'], gdefs=STUB, **kw)
prop('P25', [slc('load', 'h_load', split={'param': 9, 'order': 5, 'w': [0, 2]}), slc('value', 'h_value', split={'param': 9, 'w': 3, 'h': 2, 'phi': [0]}), slc('outside', 'h_outside', split={'param': 9, 'w': [2], 'h': [1], 'phi': [0]}), slc('set', 'h_set', split={'param': [0, 3, 5], 'w': 3}), slc('save', 'h_save', split={'param': [0, 4, 6], 'w': 3, 'h': 2}),
  slc('invalid', 'h_invalid', split={'n': 5}), slc('new', 'h_new', split={'param': 9})])

def nl(lib, name, entry, **kw): return Unit(lib + '_' + name, 'fitnl.cpp', entry, FN + ['sources/plugins/nonlinear_fitter_%s/fitter.cpp' % lib], defs=('-DFIT_' + lib,), gdefs=STUB, **kw)
prop('P29', [nl(l, 'fit', 'h_fit', split={'n': 2, 'dy': 2, 'conv': 3, 'samples': [1], 'opt': [0, 2] if l == 'ceres' else 3}) for l in ('eigen', 'ceres', 'nlopt')] + [nl('ceres', 'log', 'h_fit', split={'n': 2, 'dy': [0], 'conv': [0], 'samples': [1], 'opt': [1]}), nl('ceres', 'log2', 'h_fit', split={'n': 2, 'dy': [1], 'conv': [0], 'samples': [1], 'opt': [1]}, tiers=('thorough',))] + [nl(l, 'failure', 'h_failure') for l in ('eigen', 'ceres', 'nlopt')] + [nl(l, 'nothing', 'h_nothing') for l in ('eigen', 'ceres', 'nlopt')] + [nl(l, 'options', 'h_options') for l in ('ceres', 'nlopt')])
def rat(lib, name, entry, **kw): return Unit(lib + '_' + name, 'fitrat.cpp', entry, FN + ['sources/plugins/rational_fitters/%s.cpp' % {'parallel': 'quadprog_parallel'}.get(lib, lib)], defs=('-DFIT_' + lib,), **kw)
prop('P28', [rat('quadprog', 'intervals', 'h_intervals', split={'np': 2, 'nq': 2, 'dy': 2, 'm': 2, 'mode': 4}), rat('quadprog', 'sizes', 'h_sizes', split={'min_np': 2, 'min_nq': 2, 'more_np': 3, 'more_nq': 3}), rat('quadprog', 'refused', 'h_refused'),
  rat('parallel', 'best', 'h_best', split={'min': 2, 'more': [0], 'dy': 2}), rat('parallel', 'best_sizes', 'h_best', split={'min': [0], 'more': [1], 'dy': [0]}), rat('parallel', 'adaptive', 'h_adaptive', split={'m': 3, 'start': 3}), rat('parallel', 'convert', 'h_convert', split={'dy': 2, 'dt': 2})])
QP = ['external/quadprog++/QuadProg++.cc']
def qp(name, entry, **kw): return Unit(name, 'qp.cpp', entry, QP, **kw)
prop('P30', [qp('scaled', 'h_solve', split={'n': [0], 'm': [0, 1], 'direct': [0], 'schedule': 6}, defs=('-DQP_SCALED',)), qp('line', 'h_solve', split={'n': [0], 'm': [2, 3], 'direct': [0], 'schedule': 6, 'sign0': [0], 'sign1': 2}),
  qp('plane', 'h_solve', split={'n': [1], 'm': [1], 'direct': [0], 'schedule': [0, 1, 4], 'dir0': [0, 4], 'dir1': [2, 3, 4, 5, 6, 9], 'metric': 2}),
  qp('plane3', 'h_solve', split={'n': [1], 'm': [2], 'direct': [0], 'schedule': [0, 1, 3, 5], 'dir0': [0], 'dir1': [3, 6], 'dir2': [2, 5], 'metric': [0]}),
  qp('direct', 'h_solve', split={'n': [0, 1], 'm': [1], 'direct': [1], 'dir0': [0], 'dir1': [2, 4], 'metric': 2}),
  qp('space', 'h_solve', split={'n': [2], 'm': [3], 'direct': [0], 'schedule': [0, 4], 'axis0': [0], 'axis1': [1, 4], 'axis2': [2, 7], 'axis3': [3, 6], 'order': 6}),
  qp('space_all', 'h_solve', split={'n': [2], 'm': [3], 'direct': [0], 'schedule': 6, 'axis0': [0], 'axis1': [1, 4], 'axis2': [2, 7], 'axis3': [3, 4, 5, 6], 'order': 6}, tiers=('thorough',))])
def soft(tool, name, entry, **kw): return Unit(tool + '_' + name, 'soft.cpp', entry, FN, defs=('-DSOFT_' + tool, '-DSOFT="softs/%s/main.cpp"' % tool), gdefs=HOOK, **kw)
prop('P27', [soft('data2data', 'samples', 'h_samples', split={'from': 5, 'to': 6, 'n': [0], 'dy': [1], 'all': 2, 'binary': [1], 'intervals': [0]}),
  soft('data2data', 'samples2', 'h_samples', split={'from': [0, 1], 'to': [1, 5], 'n': [1], 'dy': [0], 'all': 2, 'binary': [1], 'intervals': [0, 1]}), soft('data2data', 'text', 'h_samples', split={'from': 5, 'to': [5], 'n': 2, 'dy': 2, 'all': 2, 'binary': [0], 'intervals': [0, 1]}),
  soft('data2data', 'interpolate', 'h_interpolate', split={'from': 5, 'to': 5, 'n': [0], 'dy': 2}), soft('data2data', 'errors', 'h_errors', split={'kind': 5}),
  soft('brdf2data', 'evaluate', 'h_evaluate', split={'data': 5, 'function': 6, 'n': [0], 'dy': 2, 'diff': 2}), soft('brdf2brdf', 'again', 'h_again', split={'function': 5, 'dy': 2}),
  soft('data2brdf', 'fit', 'h_fit', split={'data': 5, 'n': 2, 'dy': 2, 'success': 2}), soft('data2brdf', 'errors', 'h_errors', split={'kind': 3})])
SOLV = ('-include', __import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))) + '/harness/stub/solvers.h')
def alg(lib, name, entry, **kw): return Unit(lib + '_' + name, 'fitalg.cpp', entry, FN + ['sources/plugins/rational_fitters/%s.cpp' % lib], gdefs=SOLV, **kw)
prop('P31', [alg('eigen', 'fit', 'h_eigen', split={'np': 2, 'nq': 2, 'dy': 2, 'm': 2}), alg('leastsquare', 'fit', 'h_least_squares', split={'np': 2, 'nq': 2, 'dy': 2, 'm': 2, 'iterations': 2}), alg('eigen', 'refused', 'h_refused'), alg('leastsquare', 'refused', 'h_refused')])

def stat(tool, name, entry, **kw): return Unit(tool + '_' + name, 'soft.cpp', entry, FN + (['sources/core/metrics.cpp'] if tool == 'data2stats' else []), defs=('-DSOFT_' + tool, '-DSOFT="softs/%s/%s.cpp"' % (tool, 'main' if tool in ('data2moments', 'brdf2gnuplot') else tool)), gdefs=HOOK, **kw)
prop('P32', [stat('fit2stat', 'stats', 'h_stats', split={'data': 5, 'n': [0, 1], 'dy': [0], 'output': 2}), stat('data2stats', 'stats', 'h_stats', split={'ref': [0, 1, 2, 4], 'input': [0, 1, 2, 4], 'n': [1], 'dy': [0]}), stat('data2stats', 'stats_half', 'h_stats', split={'ref': [3], 'input': [1, 3, 4], 'n': [1], 'dy': [0]}), stat('data2moments', 'moments', 'h_moments', split={'nx': 3, 'form': 4, 'dy': 2, 'rows': 2, 'flat': 2}), stat('data2moments', 'refused', 'h_refused', split={'kind': 5}),
  stat('brdf2gnuplot', 'plot', 'h_plot', split={'data': [0, 1, 2, 4], 'function': [0, 1, 2, 4, 5], 'n': [1], 'dy': [0], 'form': 3, 'cosine': 2}), stat('brdf2gnuplot', 'plot_half', 'h_plot', split={'data': [3], 'function': [1, 3, 4, 5], 'n': [1], 'dy': [0], 'form': 3, 'cosine': 2}), stat('brdf2gnuplot', 'plot_rgb', 'h_plot', split={'data': [0, 1], 'function': [0, 1], 'n': [0], 'dy': [1], 'form': 3, 'cosine': 2}), stat('brdf2gnuplot', 'polar', 'h_polar', split={'function': 5, 'dy': 2, 'cosine': 2})])

def rbf(name, entry, **kw): return Unit(name, 'rbf.cpp', entry, FN + ['sources/plugins/data_interpolants/rbf.cpp'], gdefs=STUB, **kw)
prop('P33', [rbf('samples', 'h_samples', split={'dx': 3, 'rgb': 2, 'n': [0, 1]}), rbf('value', 'h_value', split={'dx': 3, 'rgb': 2, 'n': [0, 1, 2, 3]}), rbf('save', 'h_save', split={'dx': 3, 'rgb': 2, 'n': [1]})])

def astm(name, entry, **kw): return Unit(name, 'astm.cpp', entry, FN + ['sources/plugins/data_io/astm.cpp'], **kw)
prop('P34', [astm('load', 'h_load', split={'form': 4, 'n': 3, 'style': 3, 'more': 2}), astm('refused', 'h_refused', split={'kind': 2, 'form': 4, 'n': [0, 1]}), astm('new', 'h_new')])
def pyth(name, entry, **kw): return Unit(name, 'python.cpp', entry, FN + ['sources/core/metrics.cpp', 'sources/python/alta.cpp'], gdefs=HOOK + STUB + ('-std=gnu++14',), **kw)
prop('P35', [pyth('vec', 'h_vec', split={'n': 4, 'm': 4}), pyth('str', 'h_str', split={'n': 4}), pyth('arguments', 'h_arguments'), pyth('data', 'h_data', split={'how': 3, 'n': 3, 'dy': 2}), pyth('segment', 'h_segment', split={'n': 3}), pyth('function', 'h_function', split={'function': 5, 'dy': 2, 'how': 2}),
  pyth('operators', 'h_operators', split={'dy': 2, 'op': 3, 'same': 2}), pyth('files', 'h_files', split={'function': 5, 'dy': 2, 'how': 3}), pyth('fit', 'h_fit', split={'with': 2}), pyth('brdf2data', 'h_brdf2data', split={'data': 5, 'function': 6, 'n': [0], 'dy': 2}), pyth('mismatch', 'h_mismatch', split={'more': 2}), pyth('data2data', 'h_data2data', split={'from': 5, 'to': 5, 'n': [0], 'dy': 2}), pyth('data2stats', 'h_data2stats', split={'n': 2, 'dy': 2})])
