#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PARAMS = ['src/params/mod.rs', 'src/params/constraints.rs', 'src/params/corr.rs', 'src/params/concentrations.rs']
TESTS = 'The repository has three tests that run (a doc example, one Cholesky matrix, six non-negativity samples); '

P = []


def prop(id, title, statement, over, why, files, mech, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, why=why, files=files, mech=mech, note=note))


prop('C01', 'Checked constructors accept exactly the valid parameters and keep them',
     'Building a parameter or a distribution from raw values through a checked constructor succeeds exactly when every value lies in its documented range '
     '(locations any float; scales, rates, shapes and degrees of freedom greater than zero; counts non-negative; correlations in [-1, 1]; concentration vectors non-empty and positive; '
     'probabilities in [0, 1]), and NaN is rejected wherever a range is required. '
     'What was passed is kept bit for bit: it is what the accessors, the error value and params() return, and what rebuilding a distribution from params() gives again. '
     'The constraints a parameter type publishes accept exactly the values its checked constructor accepts.',
     'every f64 bit pattern (NaN, infinities, subnormals), every i64 and usize; arrays and vectors of length up to 6 (9 in the thorough tier), concentrations up to 7 (10)',
     TESTS + 'no test builds a distribution with an invalid parameter, and the boundary values (0, -0.0, NaN, subnormals) are never sampled.',
     PARAMS + ['src/univariate', 'src/normal', 'src/multivariate/dirichlet.rs'],
     [('params!/param! macros: new checks each constraint', 'src/params/mod.rs'), ('Constraint::check', 'src/params/constraints.rs')],
     'Bit-exact IEEE semantics, every input within the stated array lengths.')
prop('C02', 'Constraints decide exactly their predicate, and combinators compose',
     'Each constraint (equality, ordering, interval, sign, natural, emptiness, length, square-matrix and element-wise ones) is satisfied by a value exactly when the predicate it is named after holds, '
     'and And, Or, Not and All combine the verdicts of their parts as conjunction, disjunction, negation and for-all do. '
     'check returns the value it was given unchanged in either outcome and succeeds exactly when the constraint is satisfied.',
     'every f64 bit pattern and integer for scalar constraints; arrays and vectors of length 0..7 (10 in the thorough tier); combinators over arbitrary verdicts of their parts',
     TESTS + 'only the non-negativity constraint is tested, on six values.',
     ['src/params/constraints.rs', 'src/params/mod.rs'],
     [('Constraint impls', 'src/params/constraints.rs')],
     'Bit-exact IEEE semantics, every input within the stated lengths.')
prop('C03', 'Probability arithmetic is checked float arithmetic and never leaves [0, 1]',
     'Every arithmetic operator between probabilities, by value or by reference, gives the exact float result and reports an error exactly when that result is outside [0, 1] or NaN; mixing with a float gives the plain float result. '
     'The complement and the product of valid probabilities are valid probabilities. '
     'Construction accepts exactly [0, 1], conversions keep the value bit for bit, comparisons are those of the floats, and logarithms and powers are those of the value.',
     'every pair of f64 bit patterns; sums of up to 4 terms; integer exponents -2..5',
     TESTS + 'none of them touches probabilities, and the doc examples use a handful of round numbers.',
     ['src/probability.rs'], [('impl_op!, Not, TryFrom, Sum', 'src/probability.rs')],
     'Bit-exact IEEE semantics for all operators; ln/log2/powf/powi over the reals.')
prop('C04', 'A probability vector stays on the simplex and selects indices in proportion',
     'A probability vector is accepted exactly when every entry lies in [0, 1] and the entries sum to one within 1e-5, and its entries are kept. '
     'Selecting an index maps a uniform draw u to the unique index whose cumulative interval contains u, so index i is chosen with probability equal to entry i, and the index is always in range. '
     'The centre has all entries 1/K, and a random point of the simplex has non-negative entries that sum to one.',
     'vectors of length 0..6 (9 in the thorough tier); construction over every f64 bit pattern; selection and random points over the reals, for every draw',
     'Its tests do not run (a sibling crate is missing) and would only try degenerate vectors with whatever the thread-local generator yields.',
     ['src/probability.rs'], [('SimplexVector::try_from, sample_index, sample', 'src/probability.rs')],
     'Construction bit-exact; sampling over the reals with the draw universally quantified.')
prop('C05', 'Factorials, log-factorials and binomial coefficients are exact',
     'The factorial of n is n! for every n whose factorial fits in 64 bits and overflow is detected above that; the binomial coefficient is n!/(k!(n-k)!) where its computation does not overflow, is zero when k exceeds n, and agrees with its closed forms near both ends for every n. '
     'The log-factorial of n is ln n! to within 2e-15 relative error for every tabulated n, and beyond the table to within the first omitted term of the Stirling series.',
     'factorial for every n <= 20 and overflow for 20 < n < 30; binomial coefficients for every k <= n <= 62, every k that fits for 63 <= n <= 130 and listed n up to 10^6, zero for every k > n, every n with k or n-k at most 6; log-factorials for every n <= 2^53',
     TESTS + 'no test calls any of these functions.',
     ['src/utils.rs', 'src/consts.rs'], [('factorial, log_factorial, choose', 'src/utils.rs'), ('LOG_FACT table', 'src/consts.rs')],
     'Bit-vector semantics with overflow checks on; every value within the stated ranges.')
prop('C06', 'The Cholesky, triangular-inverse, Gram and matrix-vector kernels are exact',
     'For every positive-definite matrix the Cholesky kernel returns the lower-triangular factor with positive diagonal whose product with its transpose is the matrix, with zeros above the diagonal. '
     'The inverse of a lower-triangular matrix with non-zero diagonal times the matrix is the identity; the Gram kernel returns the transpose times the matrix, and the matrix-vector kernel the product, with no entry of the arguments transposed or dropped. '
     'Composing them inverts the matrix: the Gram matrix of the inverted factor times the original matrix is the identity.',
     'every real matrix of order 1..6 (quick) or 1..8 (thorough); factorisation of a general positive-definite matrix up to order 3, of L*Lt up to the full order',
     'The one test factorises one 3x3 matrix; inverses, Gram matrices and matrix-vector products are not tested at all.',
     ['src/normal/linalg.rs'], [('cholesky, inverse_lt, mm_square, mv_mult through BLAS/LAPACK', 'src/normal/linalg.rs')],
     'Exact real arithmetic over symbolic matrices; BLAS/LAPACK routines modelled from their documentation and compared with OpenBLAS in every run.')

try:
    from meta2 import more
    more(prop, TESTS)
except ImportError:
    pass

NA = []
TECH = 'symbolic execution of the compiled LLVM IR, obligations discharged by Z3, counterexamples replayed on the native build'


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=['inputs'], text=p['over']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], hook_needed=None))) + '\n')
            assert len(p['title']) <= 80, p['title']
    m = dict(version=1, setup_cmd='sh setup.sh', checks=[dict(
        property=p['id'], quick_cmd='python3-vt run.py %s' % p['id'], thorough_cmd='python3-vt run.py %s --thorough' % p['id'],
        evidence_file='evidence/%s.json' % p['id'], technique=TECH, level='model_checking',
        level_note=p['note'] + ' Bounds: ' + p['over'] + '. Trusts the IR semantics of engine/, rustc, Z3, and the stand-in crates under stubs/; obligations the solver leaves open are listed in the evidence and not claimed.')
        for p in P], not_applicable=NA,
        notes='One symbolic executor (engine/) shared by all checks; see DESIGN.md.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
