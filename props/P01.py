from ._models import M, REAL
PROP = dict(
    title='Integer ambiguity resolution returns the closest integer vector',
    statement='The resolver returns the integer vector closest to the float ambiguities in the metric of their covariance, candidates come out distinct, sorted and with their true distances, and the ratio compares the best two. '
              'Decorrelation only ever applies whole, unimodular changes of variables that carry estimate and covariance along, and ends with a reduced, ordered factor; the decomposition reproduces the covariance.',
    over=['inputs'], quant='every float ambiguity vector in a box; every 2x2 or 3x3 factor and transformation for the single steps, over the reals; chosen covariances for the search',
    why='Tests solve two fixed three-ambiguity problems and check the elementary steps at one random point; optimality over all float vectors is not settled by samples.',
    files=['core/solver/lambda.cxx', 'core/solver/lambda.h', 'common/matrix_defs.h'],
    mech=[('LTDL', 'core/solver/lambda.cxx'), ('reduction', 'core/solver/lambda.cxx'), ('permute', 'core/solver/lambda.cxx'), ('search', 'core/solver/lambda.cxx'), ('lambda', 'core/solver/lambda.cxx'), ('argsort', 'common/matrix_defs.h')])
O = dict(M, fork_round=4)
F = dict(M, fork_round=6)
Q = ['h_ltdl2', 'h_ltdl3', 'h_gauss', 'h_permute3', 'h_permute4', 'h_reduce2', 'h_reduce3', 'h_reduce3b', 'h_reduce3c', 'h_reduce3d', 'h_search2', 'h_search2b', 'h_search2c', 'h_search2d', 'h_search2e',
     'h_search3', 'h_lambda', 'h_lambda_1', 'h_lambda_off']
D = ['h_reduce2w', 'h_search3b', 'h_lambda_2', 'h_lambda_1w']
UNITS = [dict(name='lambda', src='lambda.cpp', repo=['core/solver/lambda.cxx'], native_extra=['common/check.cxx', 'common/print.cxx'],
              entries=[dict(fn=f, opts=F if f == 'h_lambda_off' else O) for f in Q] + [dict(fn=f, opts=O, thorough_only=True) for f in D])]
BOUNDS = ['decomposition, shift and swap: 2x2 to 4x4, off-diagonal factors within +-2 (2.4), diagonals in [1/4, 4], estimates and transformations within +-10',
          'reduction: two ambiguities with factor within +-1.4 (2.4 thorough) and diagonals in [1, 2]; three with one free factor entry (+-1.5, +-0.4) and fixed others',
          'search: fixed factors, two ambiguities within +-0.5 or +-0.9 and 2, 3 and 4 candidates, three ambiguities within +-0.25 (+-0.5 thorough) and 2 candidates, compared with all integers within +-3',
          'whole method: two ambiguities, fixed covariances, float ambiguities within +-0.9 (one case +-0.5) of zero or of an offset, compared with the integers within +-4; the ratio is compared where the runner-up leads by 0.001',
          'ambiguities beyond the range of int, more than three (four for the swap), and the cost of a reduction on nearly singular covariances']
ASSUMPTIONS = [REAL]
