from ._models import M, REAL
PROP = dict(
    title='The generated EKF computes the dense Kalman prediction and update',
    statement='Prediction moves the state by the rates times the step and gives the covariance F P F\' + G Qu G\' + Qx, with F and G the second-order expansions of the transition and input Jacobians. An update by a position or by fixed '
              'ambiguities gives exactly the Kalman-corrected state and covariance, whatever the number of ambiguities. Copies of a state are equal, time included, and an initial covariance is diagonal.',
    over=['inputs'], quant='every covariance, noise, state, rate and residual, over the reals; chosen Jacobians, innovation blocks and steps; 0-3 ambiguities',
    why='The generated tests compare their own pasted copies of the block expressions with dense algebra at one random point; prediction, update and copying themselves, and partly filled buffers, are not compared.',
    files=['core/ekf/ekf_gen/ekf_gen_matrix_manip.py', 'core/ekf/ekf_gen/ekf_gen_templates.py', 'core/ekf/ekf_gen/ekf_gen_state.py', 'core/ekf/ekf_gen/symb_block_matrix.py', 'core/ekf/rtk_ekf.yaml'],
    mech=[('block_sparse_propagate_covariance', 'core/ekf/ekf_gen/ekf_gen_matrix_manip.py'), ('sparse_meas_update', 'core/ekf/ekf_gen/ekf_gen_matrix_manip.py'),
          ('DO_UPDATE_TEMPLATE', 'core/ekf/ekf_gen/ekf_gen_templates.py'), ('copy_state', 'core/ekf/ekf_gen/ekf_gen_state.py')])
O = dict(M, nf_first=True)
Q = ['h_predict', 'h_point', 'h_point_2', 'h_fix', 'h_fix_2', 'h_fix_3', 'h_fix_none', 'h_initial', 'h_copy', 'h_plus']
D = ['h_predict_0', 'h_predict_2', 'h_point_3', 'h_point_4']
UNITS = [dict(name='ekfgen', src='ekfgen.cpp', ekf=True, flags=['-include', 'expstandin.h'], native_flags=['-DSYM_NATIVE'], replay_env={'ASAN_OPTIONS': 'detect_stack_use_after_return=0:detect_leaks=0'},
              repo=['gen:core/ekf/rtk_ekf.cxx', 'gen:core/ekf/rtk_ekf_state.cxx', 'gen:core/ekf/rtk_ekf_types.cxx', 'common/utctime.cxx', 'common/quantized_time.cxx'],
              native_extra=['common/check.cxx', 'common/print.cxx'],
              entries=[dict(fn=f, opts=O) for f in Q] + [dict(fn=f, opts=O, thorough_only=True) for f in D])]
BOUNDS = ['Jacobians, steps and the block of the covariance that enters the innovation are chosen numbers (so its inverse is exact); every other covariance entry, noise, state, rate and residual is free within +-10',
          '0 to 3 ambiguities, all of them held (the residual function demands it) or none; the position Jacobian has four or five non-zero columns at a time']
ASSUMPTIONS = [REAL, 'dynamics and residual functions are stand-ins (K01 decides them) and the dual-quaternion exponential an injective linear one (N01 decides it)']
