from ._models import M, REAL
PROP = dict(
    title='The EKF dynamics, residuals and Jacobians are exact',
    statement='The EKF moves the pose by its body rates and the velocity by body-frame gravity plus bias-free acceleration, its clocks drift, and its transition and input Jacobians are the linearisation of those rates '
              'for right-multiplied pose errors. Position, velocity, pseudorange, Doppler and fixed-ambiguity residuals are measurement minus the model of geometry, clocks and delays, independent of whether Jacobians are '
              'asked for and of other satellites. Their Jacobians are the derivatives (Doppler: with the line of sight held).',
    over=['inputs'], quant='every state, input, satellite, measurement and direction, over the reals; one of the two rotations general for residuals, four fixed pairs for Jacobians; every system; 0-2 satellites and 0-30 ambiguities',
    why='Tests compare Jacobians with finite differences at random points, loosely for Doppler, compare the transition with a second hand-written copy, and never check the residuals or rates.',
    files=['core/ekf/rtk_ekf_impl.cxx'],
    mech=[('dynamics', 'core/ekf/rtk_ekf_impl.cxx'), ('errorStateDynamics', 'core/ekf/rtk_ekf_impl.cxx'), ('h<pointPosMeas>', 'core/ekf/rtk_ekf_impl.cxx'),
          ('h<obsMeas>', 'core/ekf/rtk_ekf_impl.cxx'), ('h<fixAndHoldMeas>', 'core/ekf/rtk_ekf_impl.cxx')])
E1 = ['h_dynamics', 'h_lin', 'h_ad', 'h_point', 'h_point_pose', 'h_point_frame', 'h_point_rest', 'h_obs', 'h_obs_pose', 'h_obs_frame', 'h_obs_rest', 'h_obs_rows', 'h_fix']
UNITS = [dict(name='ekf', src='ekf.cpp', ekf=True, enc_flags=['-include', 'stablenorm.h'],
              repo=['core/ekf/rtk_ekf_impl.cxx', 'gen:core/ekf/rtk_ekf_state.cxx', 'gen:core/ekf/rtk_ekf_types.cxx', 'common/utctime.cxx', 'common/quantized_time.cxx'],
              native_extra=['common/check.cxx', 'common/print.cxx'], replay_env={'SYM_JVP_H': '3e-3'},
              entries=[dict(fn=f, opts=dict(M, coef_tol=None) if f == 'h_obs' else M) for f in E1] + [dict(fn='h_fix_size', opts=M, reach=['start'])])]
BOUNDS = ['rotations of both frames general one at a time for the residuals of position and velocity, fixed at four pairs for pseudorange, Doppler and all Jacobians; every translation',
          'satellites at least 1 m from the receiver', 'one to three satellites; 0, 1, 3 or 30 ambiguities']
ASSUMPTIONS = [REAL, 'the Doppler Jacobian neglects the turning of the line of sight and the Earth-rotation term, as the code does (relative size 1e-4)',
               'the velocity model has no -omega x v term: the property follows the code there (see DESIGN.md)']
