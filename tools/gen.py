"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'paragami/base_patterns.py'
NUM = 'paragami/numeric_array_patterns.py'
SPX = 'paragami/simplex_patterns.py'
PSD = 'paragami/psdmatrix_patterns.py'
CON = 'paragami/pattern_containers.py'
FUN = 'paragami/function_patterns.py'
OPT = 'paragami/optimization_lib.py'
AD = 'paragami/autograd_supplement_lib.py'
CHO = 'paragami/sparse_preconditioners_lib.py'
PATS = [BASE, NUM, SPX, PSD, CON]


def m(name, where):
    return {'name': name, 'where': where}


P = [
 ('C01', 'Non-free flattening and folding are exact inverses with a fixed layout',
  'For every pattern, flattening without the free transform lists every entry '
  'of the folded value exactly once, in dictionary insertion order, then array '
  'order, then C order of the entries, and folding that vector gives back the '
  'same value bit for bit, whatever the memory layout or number type of the '
  'input. The vector has exactly the length that the pattern reports, and '
  'folding followed by flattening returns any vector of that length unchanged.',
  ['inputs', 'histories'],
  'every pattern (leaves, arrays of patterns, nested dictionaries), every '
  'value, memory layout and number type; histories of calls on one pattern',
  'The tests round-trip a few random values of a few shapes, where a wrong '
  'order that is undone by the inverse, or one that only shows in unusual '
  'shapes, is invisible.',
  PATS, [m('flatten/fold', NUM), m('flatten/fold', SPX), m('flatten/fold', PSD),
         m('PatternDict/PatternArray flatten/fold', CON)],
  ['flatten', 'fold', 'flat_length'],
  'all histories of calls over a finite universe of patterns, labelled values and layouts executed on the real code against a reference layout model'),
 ('C02', 'Free flattening and folding are mutual inverses, component by component',
  'For every pattern and every valid value, the free vector has the reported '
  'free length, is finite away from the constraint boundary, and folds back to '
  'the value; every free vector of moderate size comes back unchanged from '
  'folding and flattening. The free vector of a container is the concatenation '
  'of the free vectors of its members, so that changing one independent '
  'component changes only its own block of coordinates.',
  ['inputs'],
  'every pattern, every valid interior value, every free vector of moderate '
  'size',
  'The tests check round trips of a few random values; block structure, '
  'values near constraints and larger containers are not reached.',
  PATS, [m('bounded transforms', NUM), m('simplex transforms', SPX),
         m('log-Cholesky packing', PSD), m('container slicing', CON)],
  ['flatten(free=True)', 'fold(free=True)'],
  'exhaustive product of free-coordinate alphabets and component perturbations on the real code against a block model'),
 ('C03', 'Folding any finite free vector satisfies the constraints',
  'Every finite free vector folds to a value inside the constraints that the '
  'pattern itself accepts: entries within their bounds, simplexes non-negative '
  'and summing to one, matrices exactly symmetric and positive semi-definite '
  'with diagonal at least its bound (matrix coordinates must not be so large '
  'that entries overflow). The random and the valid empty value of a pattern '
  'also satisfy them, whatever the random generator returns, and the valid '
  'empty value has a finite free vector.',
  ['inputs', 'fault_sequences'],
  'every pattern and every finite free vector, from denormal to the largest '
  'double; every answer of the random number generator',
  'The tests fold moderate random vectors; overflow, saturation and rounding '
  'show only at extreme inputs.',
  PATS, [m('unconstrain/constrain', NUM), m('logsumexp normalisation', SPX),
         m('exp-diagonal Cholesky', PSD), m('random/empty', CON)],
  ['fold(free=True)', 'random', 'empty(valid=True)', 'validate_folded'],
  'exhaustive product of an extreme-value alphabet per free coordinate on the real code, constraints checked by a reference'),
 ('C04', 'Values are accepted exactly when their shape and constraints hold',
  'A value is accepted exactly when its shape matches the pattern and, where '
  'checking is on, it is within its inclusive bounds, sums to one with '
  'non-negative entries, or is symmetric with diagonal at least its bound; the '
  'verdict of a container is that of all its members, and an explicit '
  'validation flag overrides the default of the pattern. Folding and '
  'flattening raise ValueError for anything not accepted, for vectors of the '
  'wrong length and for arguments that are not one-dimensional. Impossible '
  'constructor arguments are refused with ValueError.',
  ['inputs', 'configurations'],
  'every pattern, value, shape, validation default and explicit flag, and '
  'every entry point',
  'The tests try a few invalid values; every position, boundary, entry point '
  'and flag combination has to agree.',
  PATS, [m('validate_folded', NUM), m('validate_folded', SPX),
         m('validate_folded', PSD), m('validate_folded', CON)],
  ['validate_folded', 'fold', 'flatten'],
  'exhaustive single and double boundary perturbations of every entry at every entry point of the real code against a reference verdict'),
 ('C05', 'The free argument falls back to the default of the pattern asked',
  'Every operation that takes the free argument uses it when it is given, and '
  'otherwise uses the free default of the pattern it is called on, raising '
  'ValueError when that is unset. A container decides for all its members, '
  'whatever their own defaults are, and assigning the default takes effect '
  'for all later calls.',
  ['configurations', 'histories'],
  'every combination of container and member defaults, explicit arguments and '
  'histories of assignments',
  'The tests set one default at a time on single patterns.',
  PATS, [m('_free_with_default', BASE), m('free passed to members', CON)],
  ['flatten', 'fold', 'flat_length', 'flat_indices', 'flat_names',
   'free_default'],
  'all histories of default assignments explored on live patterns, every call probed after each step'),
 ('C06', 'Jacobians of the free transform are the true derivatives',
  'The Jacobian from free to non-free coordinates is the derivative of '
  'unfreeing, the one in the other direction is the derivative of freeing, and '
  'their product is the identity on free coordinates; sparse and dense forms '
  'hold the same numbers, and entries linking different independent '
  'components are zero. For numeric patterns the log absolute determinants '
  'are those of these matrices and are minus each other.',
  ['inputs'],
  'every pattern, every interior value, sparse and dense',
  'The tests compare a few random values with automatic differentiation of '
  'the same code.',
  PATS, [m('freeing_jacobian/unfreeing_jacobian', BASE),
         m('sparse blocks', CON), m('analytic Jacobian', SPX)],
  ['freeing_jacobian', 'unfreeing_jacobian',
   'log_abs_det_freeing_jacobian', 'log_abs_det_unfreeing_jacobian'],
  'every free direction of every pattern of a finite universe compared with finite differences of the real transform'),
 ('C07', 'Selected entries map to exactly their flat coordinates',
  'For a boolean selection of entries, the flat indices without the free '
  'transform are exactly the positions of the selected entries in the flat '
  'vector, in increasing order. With the free transform they include every '
  'coordinate that the selected entries depend on, belong only to independent '
  'components in which something is selected, and are increasing; a selection '
  'of the wrong shape or without some member is refused.',
  ['inputs'],
  'every pattern and every selection of its entries',
  'The tests try one selection at a time; all subsets of all positions must '
  'agree with the layout.',
  PATS, [m('flat_indices', NUM), m('flat_indices', SPX),
         m('flat_indices', PSD), m('offsets of members', CON)],
  ['flat_indices'],
  'all subsets of entries enumerated on the real code against the reference layout and dependence sets'),
 ('C08', 'A pattern dictionary is an ordered, lockable mapping',
  'After any history of setting, replacing, deleting and locking, a pattern '
  'dictionary lists its keys in insertion order, returns the patterns stored, '
  'and behaves in every operation as if it had been built directly with its '
  'current members. Once locked, or once it has become a member of another '
  'dictionary, every change is refused with ValueError and leaves it as it '
  'was; missing keys raise KeyError and only patterns can be stored.',
  ['histories'],
  'every history of mutations of one or two dictionaries, with every query '
  'after each step',
  'The tests perform two or three fixed mutations; stale lengths or order '
  'need particular sequences.',
  [CON], [m('PatternDict.__setitem__/__delitem__/lock', CON),
          m('_set_lengths', CON)],
  ['keys', '__getitem__', '__setitem__', '__delitem__', 'lock', 'flat_length'],
  'breadth-first exploration of operation histories of the real dictionary against a state-machine model'),
 ('C09', 'Patterns survive JSON and are equal exactly when they are alike',
  'Decoding the JSON form of any pattern gives a pattern of the same type that '
  'is equal to it and behaves alike in every operation, including constraints, '
  'validation and free defaults and member order. Two patterns compare equal '
  'exactly when their type and every attribute agree, never raising. JSON of '
  'an unknown or different pattern type is refused, and registering a custom '
  'type refuses duplicates unless told to overwrite. A deep copy is an equal, '
  'separate pattern.',
  ['inputs', 'histories'],
  'every pattern and every single-attribute variant of it, pairs of patterns, '
  'histories of registrations',
  'The tests round-trip one example of each class, mostly with default '
  'attributes.',
  PATS, [m('as_dict/to_json/from_json', BASE), m('register_pattern_json', CON)],
  ['to_json', 'from_json', 'get_pattern_from_json', 'register_pattern_json',
   '=='],
  'every pattern and every single-attribute mutant enumerated, plus all registration histories, on the real code'),
 ('C10', 'Saved values load back exactly, and damaged files are never misread',
  'A value saved with its pattern and extra data loads back bit for bit, with '
  'an equal pattern, the extra data, and for every kind of target the numeric '
  'archive format supports; each save replaces the earlier contents. Invalid '
  'values are refused with ValueError, and extra names that the archive itself uses are refused too, without '
  'touching the file, and a truncated or damaged file raises an error rather '
  'than loading as something else.',
  ['inputs', 'crash_points', 'histories'],
  'every pattern, value and target; every truncation point and overwritten '
  'window of the file; histories of saves, loads and deletions',
  'The tests save and load one value; no damage and no reuse of files.',
  [CON], [m('save_folded/load_folded', CON)],
  ['save_folded', 'load_folded'],
  'all histories of saves and loads, and every truncation point of the file, enumerated on the real code in a scratch directory'),
 ('C11', 'Wrapping the inputs of a function converts exactly the stated arguments',
  'A function with transformed inputs calls the original with each listed '
  'argument folded (or flattened) by its own pattern and free flag, and every '
  'other positional and keyword argument passed through untouched, for any '
  'number and order of argument positions, and returns what the original '
  'returns. Positions that repeat, or whose number does not match the '
  'patterns, are refused with ValueError at construction, and errors of the '
  'conversion or the function reach the caller.',
  ['inputs', 'configurations', 'histories'],
  'every arrangement of argument positions, patterns, free flags, directions '
  'and call sequences',
  'The tests use a handful of arrangements, mostly with increasing positions.',
  [FUN], [m('TransformFunctionInput.__call__', FUN),
          m('_validate_args', FUN)],
  ['TransformFunctionInput', 'FoldFunctionInput', 'FlattenFunctionInput'],
  'all arrangements of positions, patterns and flags up to a bound executed on the real wrappers against a reference dispatcher'),
 ('C12', 'Wrapping the outputs of a function converts exactly the stated results',
  'A function with transformed outputs returns the results of the original '
  'with each listed position folded (or flattened) by its own pattern and free '
  'flag and all others untouched, for any number and order of positions, and '
  'for a single result that is not a tuple. Repeated or mismatched positions '
  'and missing results are refused with ValueError; the combined input and '
  'output wrappers do both.',
  ['inputs', 'configurations', 'histories'],
  'every arrangement of return positions, patterns, free flags and directions',
  'The tests use a handful of arrangements, mostly with increasing positions.',
  [FUN], [m('TransformFunctionOutput.__call__', FUN),
          m('FoldFunctionInputAndOutput', FUN)],
  ['TransformFunctionOutput', 'FoldFunctionOutput', 'FlattenFunctionOutput',
   'FoldFunctionInputAndOutput', 'FlattenFunctionInputAndOutput'],
  'all arrangements of positions, patterns and flags up to a bound executed on the real wrappers against a reference dispatcher'),
 ('C13', 'Derivatives pass correctly through patterns and function wrappers',
  'Gradients, Hessians, forward-mode products and Hessian-vector products of '
  'any smooth function composed with folding, flattening or the function '
  'wrappers are the true derivatives of the composed function, in every mode '
  'of automatic differentiation and in each argument. Folding followed by '
  'flattening has identity Jacobian and zero second derivative, and the log '
  'determinants of numeric patterns are differentiable. (Forward mode through '
  'the free flattening of a matrix is not supported.)',
  ['inputs', 'configurations'],
  'every pattern, free flag, point, direction and differentiation mode',
  'The tests differentiate a few functions of a few patterns in reverse mode.',
  PATS + [FUN], [m('fold/flatten written with autograd', NUM),
                 m('vectorised log-Cholesky', PSD), m('wrappers', FUN)],
  ['autograd.grad', 'autograd.hessian', 'autograd.make_jvp'],
  'every coordinate direction, mode and pattern of a finite universe executed on the real code against finite differences'),
 ('C14', 'A preconditioned function always uses its latest preconditioner',
  'After any history of setting the preconditioner in any supported way '
  '(identity, dense or sparse matrix with or without its inverse, functions, '
  'Hessian given or evaluated), converting to and from the preconditioned '
  'domain multiplies by exactly the latest inverse and preconditioner, the '
  'value is the original function at the converted point, and derivatives obey '
  'the chain rule. Refused calls raise the documented error and change '
  'nothing, the consistency check raises exactly when its error exceeds the '
  'tolerance, and two preconditioned functions never affect each other.',
  ['histories', 'inputs'],
  'every history of setters, refused calls and evaluations on two functions',
  'The tests set one preconditioner on a fresh object.',
  [OPT, AD], [m('PreconditionedFunction', OPT), m('get_sparse_product', AD)],
  ['set_preconditioner_matrix', 'set_preconditioner_functions',
   'set_preconditioner_with_hessian', 'precondition', 'unprecondition',
   'get_preconditioner', 'check_preconditioner', '__call__'],
  'breadth-first exploration of operation histories of the real objects against a state-machine model'),
 ('C15', 'Eigenvalue limits and Hessian preconditioners are exact',
  'Limiting eigenvalues replaces exactly those below the lower limit and above '
  'the upper one by the limit, keeps the others and their order, works for '
  'integers, does not modify its argument, and refuses limits that are not '
  'real. Transforming an eigenspace scales the selected directions by the '
  'transformed eigenvalues and is the identity on their complement. A '
  'preconditioner set from a Hessian is the symmetric positive definite '
  'inverse square root of the symmetrised Hessian with limited eigenvalues.',
  ['inputs'],
  'every vector of eigenvalues, limits, orthonormal bases, selections and '
  'Hessians',
  'The tests use one random matrix and one pair of limits.',
  [OPT], [m('truncate_eigenvalues', OPT), m('transform_eigenspace', OPT),
          m('_get_sym_matrix_inv_sqrt_funcs', OPT)],
  ['truncate_eigenvalues', 'transform_eigenspace',
   'set_preconditioner_with_hessian'],
  'exhaustive enumeration of small vectors, bases and matrices on the real code against a reference'),
 ('C16', 'Objective evaluations are counted, printed and logged exactly as set',
  'After any history of evaluations, derivative calls, period changes and '
  'resets, the evaluation count is the number of successful evaluations since '
  'the last reset, and an evaluation is printed or logged exactly when its '
  'period is positive and divides the count before it. Each log entry holds '
  'the count, the argument as it was at that time and the value, whatever the '
  'caller does to the argument later; derivatives are those of the objective '
  'and are never counted, and overridden printing and logging receive the same '
  'data.',
  ['histories'],
  'every history of evaluations, in-place changes, failures, period changes '
  'and resets, on one or two objectives',
  'The tests run one short fixed sequence.',
  [OPT], [m('OptimizationObjective.f', OPT), m('log_value', OPT),
          m('reset', OPT)],
  ['f', 'grad', 'hessian', 'hessian_vector_product', 'optimization_log',
   'num_iterations', 'stdout'],
  'breadth-first exploration of operation histories of the real object against a state-machine model'),
 ('C17', 'Grouped sums and replacement are exact and differentiable to any order',
  'A grouped sum adds each slice of its argument to the slot of its group, for '
  'any assignment of non-negative groups, number of dimensions and number of '
  'groups, and replacement returns a copy in which exactly the indexed entries '
  'are replaced. Both have correct first and second derivatives in forward, '
  'reverse and mixed modes, leave their arguments unchanged, and the sum '
  'refuses mismatched lengths, group matrices and too few groups with '
  'ValueError.',
  ['inputs'],
  'every group assignment and every set of distinct indices, shapes and modes',
  'The tests use one assignment and one index set.',
  [AD], [m('grouped_sum', AD), m('replace', AD)],
  ['grouped_sum', 'replace'],
  'exhaustive enumeration of group assignments and index sequences up to a length on the real code against index loops'),
 ('C18', 'Sparse products and solvers are exact and differentiable',
  'For any matrix, sparse in any format or dense, the two returned products '
  'multiply one- and two-dimensional arguments by the matrix and by its '
  'transpose, and the two differentiable solvers return what the given '
  'solvers return; all have correct first and second derivatives in forward, '
  'reverse and mixed modes, also when composed with each other. Matrices that '
  'are not two-dimensional and arguments with more than two dimensions are '
  'refused with ValueError, and nothing is modified.',
  ['inputs'],
  'every sparsity pattern, format, argument shape and differentiation mode',
  'The tests use one random matrix in one format.',
  [AD], [m('get_sparse_product', AD), m('get_differentiable_solver', AD)],
  ['get_sparse_product', 'get_differentiable_solver'],
  'every sparsity pattern up to 3x3 in every format executed on the real code against dense algebra'),
 ('C19', 'Forward-mode rules for linear algebra and special functions are right',
  'Once the library is imported, forward-mode derivatives of the matrix '
  'inverse and of linear solves (single matrices and batches, vector and '
  'matrix right-hand sides), of the log determinant of a single matrix, and of '
  'the gamma, log-gamma, reciprocal gamma, gamma sign, digamma and polygamma '
  'functions are the true derivatives, and so are the second derivatives that '
  'combine forward and reverse mode. The log determinant of a batch is refused '
  'with ValueError.',
  ['inputs'],
  'every well-conditioned small matrix, batch shape, right-hand side, '
  'direction, function and argument',
  'The tests check a few random matrices with the same differentiation '
  'library.',
  [AD], [m('defjvp rules', AD)],
  ['autograd.make_jvp of inv, solve, slogdet and scipy.special functions'],
  'every small integer matrix, direction and mode enumerated on the real rules against closed-form derivatives'),
 ('C20', 'Pattern operations have no hidden effects',
  'No operation on a pattern changes its arguments, returns memory shared with '
  'them or with another result, or depends on the operations performed before '
  'it on this or any other pattern. Changing an argument or a result in place '
  'afterwards affects neither earlier nor later results, and arguments changed '
  'in place between calls are read afresh.',
  ['histories', 'inputs'],
  'every sequence of operations on patterns of every kind, in every memory '
  'layout, with the caller overwriting arguments and results in between',
  'The tests use fresh values and look at each result once.',
  PATS, [m('copies in flatten/fold', NUM), m('member access', CON)],
  ['all pattern methods'],
  'all ordered pairs and triples of operations executed on live patterns and compared with fresh ones'),
 ('C21', 'Flat coordinate names line up with the flat vector',
  'The names of the flat coordinates are as many as the flat vector has '
  'entries, in the same order: index tuples for numeric arrays, running '
  'numbers for simplexes, matrices and arrays of patterns, and for '
  'dictionaries the key, the delimiter and the name of the member, in '
  'insertion order, with and without the free transform.',
  ['inputs'],
  'every pattern, free flag and delimiter',
  'The tests check one dictionary.',
  [BASE, NUM, CON], [m('flat_names', BASE), m('flat_names', NUM),
                     m('flat_names', CON)],
  ['flat_names'],
  'every coordinate of every pattern of a finite universe perturbed on the real code and matched to its name'),
 ('C22', 'Sparse Hessian preconditioners are exact inverse square roots',
  'For any sparse symmetric positive definite matrix, whatever its sparsity '
  'and the ordering chosen to factor it, the two returned functions are '
  'inverse to each other, and with them as preconditioner the preconditioned '
  'matrix is the identity. Both are linear with correct derivatives in forward '
  'and reverse mode, the matrix is not modified, and matrices that are not '
  'sparse are refused with ValueError.',
  ['inputs'],
  'every sparsity pattern, scale and vector',
  'The tests use one random sparse matrix; orderings that permute need '
  'particular patterns.',
  [CHO, AD], [m('get_sym_matrix_inv_sqrt_funcs', CHO),
              m('get_differentiable_solver', AD)],
  ['get_sym_matrix_inv_sqrt_funcs', 'PreconditionedFunction'],
  'every symmetric sparsity pattern up to size 5 executed on the real code against dense algebra'),
 ('C23', 'Pattern classes defined by the user get the full machinery',
  'A class that derives from Pattern and implements the abstract methods gets, '
  'for every value, exact default Jacobians of both transforms (also when the '
  'numbers of free and flat coordinates differ), lengths and names that follow '
  'the free default, valid random values, boolean values, equality by content '
  'and class, and conversion to and from JSON under its own name; and it works '
  'like a built-in pattern inside dictionaries and arrays of patterns, wrapped '
  'functions and saved files. A class that leaves out an abstract method cannot '
  'be instantiated.',
  ['inputs'],
  'every class that implements the abstract methods, every value and every '
  'place where a pattern can be used',
  'The tests define no pattern class of their own; built-in patterns override '
  'most of the defaults.',
  PATS + [FUN], [m('Pattern', BASE), m('register_pattern_json', CON)],
  ['Pattern', 'PatternDict', 'PatternArray', 'FlattenFunctionInput',
   'save_folded'],
  'seven user-defined classes with closed-form references executed in every place, value and pairing within bounds'),
 ('C24', 'Overlapping calls on shared patterns and wrappers do not interact',
  'Any two calls that do not change an object may overlap: when two threads '
  'use one pattern, dictionary, wrapped function, preconditioned function or '
  'sparse product at once, or when a wrapped function calls its own wrapper or '
  'evaluates other objectives while it is evaluated, each call gives what it '
  'gives alone.',
  ['schedules', 'histories'],
  'every interleaving of two calls, every nesting of calls',
  'The tests make one call at a time.',
  PATS + [FUN, OPT, AD], [m('no shared scratch state', CON),
                          m('wrapped calls', FUN)],
  ['all pattern methods', 'all function wrappers', 'PreconditionedFunction',
   'OptimizationObjective'],
  'all two-thread schedules with up to two preemptions, at every line of the library, under a controlled scheduler'),
 ('C25', 'Patterns, wrappers, preconditioners and objectives form one pipeline',
  'An objective of folded values, wrapped by a pattern, preconditioned and '
  'logged, has at every point the value, gradient, Hessian and cross '
  'derivatives of the original function, by the chain rule, whatever sequence '
  'of operations led there: evaluations, differentiation, steps taken in '
  'place, runs of an optimizer, changes of the preconditioner, of the free '
  'flags and of the logging, refused calls, overwritten results, other '
  'wrappers of the same pattern, and replacing the pattern and the point by '
  'what was stored in JSON, a file or a copy. The point, the count of '
  'evaluations and the log follow.',
  ['histories', 'inputs'],
  'every sequence of operations on the whole pipeline, for every pattern',
  'The tests exercise each class alone, once; faults of the seams need a '
  'sequence of calls across several of them.',
  PATS + [FUN, OPT, CHO], [m('TransformFunctionInput', FUN),
                           m('PreconditionedFunction', OPT),
                           m('OptimizationObjective', OPT),
                           m('save_folded', CON)],
  ['OptimizationObjective', 'PreconditionedFunction', 'FlattenFunctionInput',
   'load_folded', 'get_pattern_from_json'],
  'all operation histories up to depth 3 on the live pipeline against a model with exact derivatives'),
 ('C26', 'Interrupted and failed calls leave no trace',
  'When a call is interrupted at any point (a keyboard interrupt, exhausted '
  'memory, an error raised by the function of the user or by a refused '
  'argument), the error reaches the caller, and every pattern, wrapped '
  'function, preconditioned function, objective, product and solver, and '
  'everything created later, behaves as if the call had not been made. If the '
  'call was to change an object, each part of the object is as before or as '
  'after the change, nothing else is affected, and the change can be made '
  'again. An interrupted save leaves the old contents, the new ones, or a file '
  'that is refused.',
  ['crash_points', 'histories'],
  'every point of every call at which it can be interrupted or fail',
  'The tests never interrupt a call; state that is swapped for the duration of '
  'a call and restored afterwards looks right in every test that does not '
  'fail.',
  PATS + [FUN, OPT, AD], [m('set/delete of members', CON),
                          m('wrapped calls', FUN), m('setters', OPT),
                          m('save_folded', CON)],
  ['all pattern methods', 'all function wrappers', 'PreconditionedFunction',
   'OptimizationObjective', 'save_folded'],
  'all interruption points of all operations on the live objects, by fault injection at every call, line and return'),
]

NOTE = ('Exhaustive within the bounds in DESIGN.md and the evidence file, on '
        'the real code of the current tree; beyond them only by the small '
        'scope argument.  Trusts numpy, scipy and autograd themselves and the '
        'reference model in mc/spec.py.')

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for (pid, title, stmt, over, text, why, files, mech, obs, tech) in P:
        assert len(title) <= 80, (pid, len(title))
        fh.write(json.dumps({
            'id': pid, 'title': title, 'statement': stmt,
            'quantifier': {'over': over, 'text': text},
            'why_tests_cant': why,
            'anchors': {'files': files, 'mechanism': mech,
                        'observe_at': obs, 'hook_needed': None}}) + '\n')

checks = []
for (pid, title, stmt, over, text, why, files, mech, obs, tech) in P:
    cmd = '/opt/venv/bin/python run.py {} --tier '.format(pid)
    checks.append({
        'property': pid, 'quick_cmd': cmd + 'quick',
        'thorough_cmd': cmd + 'thorough',
        'technique': 'bounded exhaustive model checking: ' + tech,
        'level': 'model_checking', 'level_note': NOTE})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump({
        'version': 1,
        'setup_cmd': '/opt/venv/bin/python -c "import numpy, scipy, autograd"',
        'checks': checks, 'not_applicable': [],
        'notes': 'Pure Python; checks import paragami from /repo directly and '
                 'need no build and no hooks.'}, fh, indent=1)
    fh.write('\n')
