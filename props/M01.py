from ._models import unit, REAL, FIX
PROP = dict(
    title='Pseudorange/Doppler residuals equal the physical model, with exact Jacobians',
    statement='The pseudorange residual is the whitened, switch-weighted difference of the geometric range plus Earth-rotation term, atmospheric delays and receiver-minus-satellite '
              'clock against the measurement; the Doppler residual is the same for the range rate. The satellite state is the one at reception minus signal travel time. '
              'The pseudorange row and the switch row of every Jacobian block are the exact derivatives of the residual, and asking for Jacobians does not change the residual.',
    over=['inputs'], quant='every pose, lever arm, velocity, clock, switch value, satellite state, atmospheric delay and standard deviation, over the reals',
    why='Tests use unit weights, satellites without clock error and one random pose; an error in a weight, a clock-rate sign or a rarely moved lever arm does not show.',
    files=['models/prange_model.cxx', 'models/prange_model.h'],
    mech=[('PseudorangeModel::computeConstants', 'models/prange_model.cxx'), ('PseudorangeModel::Evaluate', 'models/prange_model.cxx')])
UNITS = unit('prange', [dict(fn='h_pr_res_n2b', cost=4), dict(fn='h_pr_res_r2n', cost=5), dict(fn='h_pr_res_e2r', cost=5), dict(fn='h_pr_jac_n2b', cost=3),
                        dict(fn='h_pr_jac_vel', cost=5), 'h_pr_jac_clk', dict(fn='h_pr_jac_r2n', cost=4), 'h_pr_jac_sw', dict(fn='h_pr_jac_pbg', cost=3),
                        dict(fn='h_pr_jac_pbg_r', cost=3), 'h_pr_white', 'h_light_pr'])
BOUNDS = [FIX, 'whitening: three fixed correlated covariances, otherwise any diagonal covariance (the code itself assumes a diagonal one in four Jacobian blocks)',
          'the pose and lever-arm rows of the Doppler Jacobian are marked approximate in the code and are not claimed',
          'travel-time iteration: satellite answers drawn from four travel times per step, three steps']
ASSUMPTIONS = [REAL, 'the satellite and the atmosphere are stand-ins that return arbitrary values']
