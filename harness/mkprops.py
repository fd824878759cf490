#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))
W='wicked/'
p('C01','Wick expansion over occupied/unoccupied spaces is exact',
  'Contracting any product of normal-ordered operators over occupied and unoccupied fermionic spaces gives exactly the sum of all allowed Wick contractions (occupied: creator left of annihilator; unoccupied: annihilator left of creator; never two legs of the same operator), each with its fermionic sign and the product of the operator prefactors. Two results are the same when they agree after renaming summed indices, antisymmetry of the tensors and reordering of tensors and of normal-ordered operators.',
  ['inputs','configurations'],'every choice and order of occupied/unoccupied spaces, every product of operators of any rank (repeated operators included), every overall factor',
  'The tests compare a few dozen hand-derived products, mostly CC doubles; the number of operator products is unbounded and the prefactor of e.g. triply repeated contractions was wrong without any test noticing.',
  [W+'diagrams/wick_theorem.cc',W+'diagrams/wick_theorem_elementary_contractions.cc',W+'diagrams/wick_theorem_composite_contractions.cc',W+'diagrams/wick_theorem_process_contractions.cc',W+'diagrams/wick_theorem_canonicalize_graph.cc'],
  [('elementary contractions',W+'diagrams/wick_theorem_elementary_contractions.cc'),('backtracking over composite contractions',W+'diagrams/wick_theorem_composite_contractions.cc'),('sign, factor and combinatorial factor',W+'diagrams/wick_theorem_process_contractions.cc'),('graph canonicalization',W+'diagrams/wick_theorem_canonicalize_graph.cc')],
  ['WickTheorem.contract'])
p('C02','Generalized Wick expansion with densities and cumulants is exact',
  'For operators that carry indices of general (partially occupied) spaces, contraction gives the sum over all ways to form pair contractions (gamma1 when the creator stands left, eta1 when the annihilator stands left) and k-body cumulants of k creators and k annihilators (lambda_k, k up to the chosen maximum) that each touch at least two operators, with correct signs and prefactors. Upper and lower indices of densities and cumulants follow the creators and annihilators they replace.',
  ['inputs','configurations'],'every mixture of occupied, general and unoccupied spaces, every product of operators, every maximum cumulant rank',
  'Tests fix a handful of one- and two-body operators with cumulants; no test covers the general combination of repeated cumulants, several general spaces or truncated cumulant rank.',
  [W+'diagrams/wick_theorem_elementary_contractions.cc',W+'diagrams/wick_theorem_process_contractions.cc'],
  [('general elementary contractions',W+'diagrams/wick_theorem_elementary_contractions.cc'),('evaluate_contraction',W+'diagrams/wick_theorem_process_contractions.cc')],
  ['WickTheorem.contract','WickTheorem.set_max_cumulant'])
p('C03','Rank window selects exactly the requested terms; contraction is linear',
  'A contraction asked for ranks between min and max returns exactly the terms of the full expansion that keep between min and max uncontracted operators, nothing more and nothing less. Contraction is linear: an overall factor scales every coefficient, and the contraction of a linear combination of operator products is the same linear combination of their contractions.',
  ['inputs'],'every operator expression, every factor and every pair (min,max), including empty, odd and out-of-range windows',
  'Tests use a few windows (0,0), (2,2), (4,4); boundary windows, windows that exclude every term and general linear combinations are unbounded.',
  [W+'diagrams/wick_theorem.cc',W+'diagrams/wick_theorem_composite_contractions.cc',W+'diagrams/wick_theorem_process_contractions.cc'],
  [('rank filter',W+'diagrams/wick_theorem_composite_contractions.cc'),('sum over products',W+'diagrams/wick_theorem.cc')],['WickTheorem.contract'])
p('C04','Contraction engine: results do not depend on its history or settings',
  'What a contraction engine returns depends only on its arguments and on the last maximum cumulant rank it was given: earlier contractions (also failed or empty ones), the print level, graph canonicalization and the threading mode never change the value of the result, and the arguments are never modified.',
  ['histories','configurations'],'every sequence of settings and contractions on one or several engine objects',
  'Tests create a fresh engine per assertion and never print; reuse histories and settings combinations are unbounded.',
  [W+'diagrams/wick_theorem.cc',W+'diagrams/wick_theorem.h',W+'diagrams/wick_theorem_canonicalize_graph.cc'],
  [('per-call reset of contraction lists',W+'diagrams/wick_theorem.cc'),('do_canonicalize_graph switch',W+'diagrams/wick_theorem_process_contractions.cc')],
  ['WickTheorem.*'],[dict(name='engine',meaning='settings, list of elementary and composite contractions, timers',where=W+'diagrams/wick_theorem.h')])
p('C05','Multi-threaded contraction equals the single-threaded one',
  'Under every schedule of its worker tasks the multi-threaded contraction returns exactly the same expression as the single-threaded contraction, loses or duplicates no contraction, and performs no unsynchronized conflicting access to shared data.',
  ['schedules','inputs'],'every interleaving of the worker tasks, every operator product',
  'Each test runs one schedule and compares with a stored answer; a data race shows only under particular interleavings (the timers map was written without a lock).',
  [W+'diagrams/wick_theorem_process_contractions.cc',W+'diagrams/wick_theorem.h'],
  [('async tasks and in-order merge',W+'diagrams/wick_theorem_process_contractions.cc'),('timers lock',W+'diagrams/wick_theorem_process_contractions.cc')],
  ['WickTheorem.set_single_threaded','WickTheorem.contract','WickTheorem.timers'],
  [dict(name='timers_',meaning='accumulated times, shared by the tasks',where=W+'diagrams/wick_theorem.h')])
p('C06','The contracted expression is the same operator as the product',
  'Evaluated on a finite set of orbitals with arbitrary antisymmetric numerical amplitudes, the full expansion returned for a product of operators, read as normal-ordered strings, equals the product of the operators as a linear map on Fock space; in particular the fully contracted part equals the reference expectation value.',
  ['inputs'],'every product of operators, every choice of amplitudes, every number of orbitals per space',
  'No test evaluates an expression numerically; tests compare text with text written by the authors.',
  [W+'diagrams/wick_theorem.cc',W+'diagrams/operator.cc'],
  [('contract',W+'diagrams/wick_theorem.cc'),('operator prefactor',W+'diagrams/operator.cc')],['WickTheorem.contract','op'])
p('C07','Vacuum normal ordering preserves the operator',
  'Normal ordering an expression with respect to the true vacuum yields an expression that is the same operator, for fermions, bosons and mixtures, where each delta tensor equals one exactly when its two indices denote the same orbital. When only same-index contractions are requested, the result is the same operator provided distinct labels denote distinct orbitals.',
  ['inputs'],'every expression of operator strings with any repetition pattern of indices, any fields and spaces, with or without tensors',
  'Tests check a few short strings; the set of strings and index coincidences is unbounded.',
  [W+'algebra/symbolic_term_normal_order.cc',W+'algebra/expression_normal_order.cc',W+'algebra/sqoperator.cc'],
  [('recursive swap and contract',W+'algebra/symbolic_term_normal_order.cc'),('commutator factor',W+'algebra/sqoperator.cc')],
  ['Expression.vacuum_normal_ordered'])
p('C08','Vacuum normal ordering: form of the result and refusal of ordered input',
  'Every term of a normal-ordered result has its creators before its annihilators, creators in increasing and annihilators in decreasing index order, no fermion operator twice, and its original tensors followed only by deltas between two different indices of one space; the result is reported as normal ordered and ordering it again returns it unchanged. The normal-order test answers correctly for every expression, and an expression with a term already labelled normal ordered is refused.',
  ['inputs'],'every expression, both contraction modes',
  'Tests compare a few outputs; form, idempotence and refusal for arbitrary input are not tested.',
  [W+'algebra/symbolic_term_normal_order.cc',W+'algebra/expression_normal_order.cc',W+'algebra/symbolic_term.cc'],
  [('is_vacuum_normal_ordered',W+'algebra/symbolic_term.cc'),('adjacent identical operators',W+'helpers/helpers.h')],
  ['Expression.vacuum_normal_ordered','Expression.is_vacuum_normal_ordered'])
p('C09','Canonicalization preserves the value of an expression',
  'Canonicalizing an expression only renames summed indices (those that appear on a tensor) without capturing others, sorts tensors, indices and normal-ordered operators, and merges terms, with the signs that antisymmetric tensors and fermion operators require and none for symmetric tensors and bosons. Operator indices that appear on no tensor keep their label; expressions with tensors without symmetry are refused and left unchanged.',
  ['inputs'],'every expression with any index pattern, tensor symmetry, repeated tensors, fields and spaces',
  'Tests canonicalize a few dozen terms; capture of a free operator index and a wrong bosonic sign went unnoticed.',
  [W+'algebra/symbolic_term.cc',W+'algebra/expression.cc',W+'algebra/tensor.cc',W+'algebra/sqoperator.cc',W+'algebra/index.cc'],
  [('SymbolicTerm::canonicalize',W+'algebra/symbolic_term.cc'),('canonicalize_indices',W+'algebra/index.cc'),('canonicalize_sqops',W+'algebra/sqoperator.cc')],
  ['Expression.canonicalize'])
p('C10','Expressions form a vector space and an algebra',
  'Through any history of additions, subtractions, negations, scalings, products and in-place additions, an expression is the exact linear combination of its terms: like terms are merged, zero terms never appear, length, equality, dot product, norm and iteration agree with that combination, and operands other than the assigned one are unchanged. The product concatenates tensors and operators and is refused when a factor has a term labelled normal ordered.',
  ['histories','inputs'],'every finite history of operations on any set of expressions',
  'Tests apply single operations; histories (cancellation then re-addition, scaling by zero, aliasing of operands) are unbounded.',
  [W+'helpers/algebra.hpp',W+'helpers/helpers.h',W+'algebra/expression.cc',W+'algebra/symbolic_term.cc'],
  [('term map',W+'helpers/algebra.hpp'),('add_to_map',W+'helpers/helpers.h'),('operator_product',W+'algebra/symbolic_term.cc')],
  ['Expression.*'],[dict(name='terms_',meaning='map from term to nonzero coefficient',where=W+'helpers/algebra.hpp')])
p('C11','Text form is faithful: what is printed reads back as the same object',
  'The printed form of an index, tensor, operator, term or expression shows exactly its coefficient, labels, upper and lower indices, operators and normal-ordering braces, and reading the printed text of an expression (line by line) yields an equal expression.',
  ['inputs'],'every expression with tensor labels that begin with a letter and have only letters, digits and underscores, any coefficients, any indices, any registered spaces',
  'Tests read and print fixed strings; one-digit coefficients, labels with underscores, large numbers and bosonic braces did not round trip.',
  [W+'algebra/expression.cc',W+'algebra/tensor.cc',W+'algebra/index.cc',W+'algebra/sqoperator.cc',W+'algebra/symbolic_term.cc',W+'algebra/term.cc',W+'helpers/rational.cc',W+'utils.py'],
  [('make_expression',W+'algebra/expression.cc'),('make_tensor_from_str',W+'algebra/tensor.cc'),('make_index_from_str',W+'algebra/index.cc')],
  ['str','expression','string_to_expr','tensor','index'])
p('C12','The adjoint is an involutive, linear anti-automorphism',
  'The adjoint of an expression or operator expression reverses every operator string (or operator product), exchanges creators and annihilators, keeps tensors, labels, flags and coefficients, is linear, undoes itself when applied twice, and maps a product to the product of the adjoints in reverse order.',
  ['inputs'],'every expression and operator expression and every pair of them',
  'Tests take the adjoint of a few terms; products, linear combinations and mixed fields are not covered.',
  [W+'algebra/symbolic_term.cc',W+'algebra/expression.cc',W+'algebra/sqoperator.cc',W+'helpers/product.hpp',W+'diagrams/operator.cc',W+'diagrams/graph_matrix.cc',W+'diagrams/operator_expression.h'],
  [('Product::adjoint',W+'helpers/product.hpp'),('GraphMatrix::adjoint',W+'diagrams/graph_matrix.cc')],
  ['Expression.adjoint','OperatorExpression.adjoint'])
p('C13','Operator expressions: product, commutator and BCH series are exact',
  'Sums, differences, scalings and products of operator expressions are the exact linear combinations of ordered operator products, the commutator of a list is the left-nested commutator, and the Baker-Campbell-Hausdorff series of order n is the sum over k up to n of the k-fold nested commutators divided by k factorial, with zero terms removed and operands unchanged.',
  ['inputs','histories'],'every operator expression, nesting depth and order',
  'Tests check two-fold commutators and low order; general order, multi-term operands and cancellation are unbounded.',
  [W+'diagrams/operator_expression.cc',W+'diagrams/operator_expression.h',W+'diagrams/operator_product.cc',W+'helpers/algebra.hpp',W+'api/operator_api.cc'],
  [('commutator, bch_series',W+'diagrams/operator_expression.cc'),('algebra',W+'helpers/algebra.hpp')],
  ['OperatorExpression.*','commutator','bch_series'])
p('C14','Canonicalizing an operator expression preserves it',
  'Canonicalizing an operator expression only exchanges neighbouring operators that have no possible contraction with each other, with a sign for each exchange of two operators with odd numbers of legs, and merges equal products; the value of the expression and of its contractions is unchanged.',
  ['inputs'],'every operator expression',
  'Tests canonicalize a few products of even operators; odd operators and longer products are not covered.',
  [W+'diagrams/operator_expression.cc',W+'diagrams/operator_product.cc',W+'diagrams/operator.cc'],
  [('bubble sort with commutation test',W+'diagrams/operator_product.cc'),('do_operators_commute',W+'diagrams/operator.cc')],
  ['OperatorExpression.canonicalize'])
p('C15','Operator constructors build exactly the requested components',
  'Building operators from component strings, from ranks and spaces, or from lists of labels yields exactly one operator per requested component (merged or unique as asked, diagonal blocks included or not as asked), with the given label, legs in registered space order, and prefactor one over the product of the factorials of equal legs. The expanded form of an operator has the matching tensor, operator string, symmetry, flag and coefficient. Labels of no space, lists of the wrong length and negative numbers of legs are refused.',
  ['inputs','configurations'],'every label, component list, rank and set of spaces',
  'Tests build a few operators; large ranks overflowed the prefactor, mixed diagonal blocks and the coefficient argument were wrong.',
  [W+'diagrams/operator.cc',W+'diagrams/operator_expression.cc',W+'diagrams/graph_matrix.cc',W+'algebra/expression.cc',W+'utils.py'],
  [('make_diag_operator_expression',W+'diagrams/operator_expression.cc'),('Operator::factor',W+'diagrams/operator.cc'),('gen_op',W+'utils.py'),('make_operator_expr',W+'algebra/expression.cc')],
  ['op','gen_op','diag_operator','operator_expr'])
p('C16','Coefficients are exact rational numbers in canonical form',
  'Arithmetic on coefficients is exact for numbers far beyond machine words, the result is always in lowest terms with a positive denominator, equality is equality of numbers, dividing by zero and numbers beyond the supported 1024 bits are refused, and printing and reading a number gives the number back.',
  ['inputs','histories'],'every chain of operations on rational numbers',
  'Tests check small fractions; negative divisors, zero denominators and numbers beyond 32 bits were wrong.',
  [W+'helpers/rational.cc',W+'helpers/rational.h',W+'api/rational_api.cc'],
  [('reduce',W+'helpers/rational.cc'),('make_rational_from_str',W+'helpers/rational.cc')],
  ['rational','make_rational'])
p('C17','The orbital-space registry is consistent through every history',
  'After any history of adding spaces, refused additions and resets, the registry reports exactly the accepted spaces in order with their labels, fields, types and index names; labels and index names are unique over all spaces; a refused addition changes nothing; a reset makes every label available again; labels and positions are resolved to the current spaces only, and refused when there is no such space.',
  ['histories'],'every sequence of add, refused add and reset, over any labels and index lists',
  'Tests reset and add one or two valid sets of spaces; refused additions left the registry inconsistent.',
  [W+'helpers/orbital_space.cc',W+'helpers/orbital_space.h',W+'api/orbital_space_api.cc'],
  [('add_space',W+'helpers/orbital_space.cc'),('reset',W+'helpers/orbital_space.cc')],
  ['add_space','reset_space','num_spaces','osi','index'],
  [dict(name='space_info_',meaning='accepted spaces in order',where=W+'helpers/orbital_space.h'),dict(name='label_to_pos_, indices_to_pos_',meaning='lookup tables',where=W+'helpers/orbital_space.h')])
p('C18','Orderings and sort signs of indices and operators',
  'Indices are ordered by space then number; operators by creators first, creators increasing and annihilators decreasing; the quasiparticle order does the same with the roles exchanged in occupied spaces; all three are strict weak orders consistent with equality. Sorting a list of indices, in either direction, returns the sorted list and the parity of the permutation.',
  ['inputs','configurations'],'every pair and triple of indices or operators over any spaces, every index list',
  'Tests compare a few pairs; transitivity and parity are universally quantified.',
  [W+'algebra/index.cc',W+'algebra/sqoperator.cc',W+'helpers/combinatorics.cc'],
  [('operator<',W+'algebra/sqoperator.cc'),('normal_ordered_less',W+'algebra/sqoperator.cc'),('permutation_sign',W+'helpers/combinatorics.cc')],
  ['Index','SQOperator','canonicalize_indices'])
p('C19','Many-body equations partition the expression without loss',
  'Splitting an expression with normal-ordered terms into many-body equations assigns every term to exactly one equation, in the group named by the spaces of its operators, with a left-hand tensor carrying the operator indices (annihilators up, creators down), a right-hand side with exactly the tensors of the term, and its coefficient; no term is lost, duplicated or altered.',
  ['inputs'],'every expression and label',
  'Tests convert a few residuals; arbitrary mixtures of ranks and spaces are not covered.',
  [W+'algebra/expression.cc',W+'algebra/equation.cc',W+'algebra/tensor.cc'],
  [('to_manybody_equation',W+'algebra/expression.cc')],['Expression.to_manybody_equations','Equation.*'])
p('C20','Generated tensor code computes the equation it was compiled from',
  'The code compiled from an equation (both einsum generators and the ambit generator) names the target and every factor with its label, spaces and indices in order, maps distinct indices to distinct letters and equal indices to equal letters on both sides, and multiplies by the coefficient rounded to the printed digits; unknown formats, equations with more distinct indices than letters, and equations without exactly one left-hand tensor or with operators are refused.',
  ['inputs'],'every equation with any index pattern, any spaces and any pretty index names',
  'Tests compile a few equations to fixed strings; letter collisions appear only for particular index sets.',
  [W+'algebra/equation.cc',W+'algebra/tensor.cc',W+'algebra/symbolic_term.cc',W+'utils.py'],
  [('get_unique_index',W+'algebra/equation.cc'),('compile_einsum',W+'utils.py')],['Equation.compile','compile_einsum'])
p('C21','LaTeX rendering shows the object it renders',
  'The LaTeX form of indices, tensors, operators, terms and expressions shows every coefficient, label, index (its registered name, or its space letter with the number when names run out), operator and brace of the object, in order; labels that are Greek names appear as the Greek letter.',
  ['inputs','configurations'],'every expression, registered index names and separators',
  'Tests render a few terms; index numbers beyond the registered names and mixed fields are not covered.',
  [W+'algebra/symbolic_term.cc',W+'algebra/tensor.cc',W+'algebra/sqoperator.cc',W+'algebra/index.cc',W+'algebra/expression.cc',W+'helpers/rational.cc',W+'helpers/orbital_space.cc'],
  [('latex',W+'algebra/symbolic_term.cc'),('index_label',W+'helpers/orbital_space.cc')],['latex'])
p('C22','Integer partitions are enumerated completely and once',
  'The partitions of n into at most m parts are listed completely, each exactly once, as non-increasing lists of positive integers with sum n and at most m parts.',
  ['inputs'],'every n and m',
  'Tests list partitions of a few n; cumulant contractions rely on all of them.',
  [W+'helpers/combinatorics.cc'],[('integer_partitions',W+'helpers/combinatorics.cc')],['integer_partitions'])
p('C23','From operators to code: compiled equations compute the operator',
  'The many-body equations of a contracted expression, compiled to code by any of the generators, together with the vacuum-to-vacuum part, evaluate to the operator product (or exponential series) they came from: executed on any amplitudes, each line adds to the residual of its block exactly what the block of the operator product holds, up to the printed digits of the coefficients. In general spaces the expectation values (gamma1, eta1, cumulants) are those of any reference determinant.',
  ['inputs','configurations'],'every expression of operators over occupied, unoccupied and general spaces, every code format and every amplitude',
  'Tests compare the code of a few equations with fixed strings; whether contraction, canonicalization, splitting and compilation compose to the right numbers is universally quantified over operators and amplitudes.',
  [W+'diagrams/wick_theorem.cc',W+'algebra/expression.cc',W+'algebra/equation.cc',W+'algebra/tensor.cc',W+'algebra/symbolic_term.cc',W+'diagrams/operator_expression.cc',W+'utils.py'],
  [('WickTheorem.contract',W+'diagrams/wick_theorem.cc'),('to_manybody_equation',W+'algebra/expression.cc'),('Equation::compile',W+'algebra/equation.cc'),('compile_einsum',W+'utils.py')],
  ['WickTheorem.contract','Expression.to_manybody_equations','Equation.compile','compile_einsum','bch_series'])
p('C24','Objects built piece by piece have a value of their own',
  'Terms, expressions and equations hold exactly the pieces put into them, in order: adding tensors and operators, setting operators, coefficient or label, putting a term in an expression (alone, with a coefficient, or as a term), taking sums and multiples, and reading terms back by iteration (also while the expression is changed) or from an equation. Every object has a value of its own: a later change of one object never changes another, and equal terms of an expression are merged.',
  ['histories'],'every sequence of building, reading and changing steps over any number of objects',
  'Tests build single objects and look at them once; that changing one object leaves the others alone holds for histories.',
  [W+'algebra/symbolic_term.cc',W+'algebra/term.cc',W+'algebra/expression.cc',W+'algebra/equation.cc',W+'helpers/algebra.hpp',W+'api/expression_api.cc',W+'api/term_api.cc',W+'api/equation_api.cc'],
  [('add, set',W+'algebra/symbolic_term.cc'),('__iter__, __iadd__',W+'api/expression_api.cc'),('operator+=',W+'helpers/algebra.hpp'),('lhs, rhs',W+'algebra/equation.h')],
  ['SymbolicTerm.*','Term.*','Expression.__iadd__','Expression.__iter__','Equation.*'])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
try:
    import jsonschema
    sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in P: jsonschema.validate(x,sch)
    print(len(P),'ok')
except ImportError: print(len(P))
