from ._models import M, REAL
PROP = dict(
    title='IMU preintegration, its covariance, residual and Jacobians are exact',
    statement='Integrating a sample advances position, velocity and rotation by the bias-free mean rates, the covariance and the bias sensitivity by the error dynamics linearised there, and the weight is a '
              'square root of the inverse covariance. The residual vanishes exactly at the predicted end state, follows the bias through its sensitivity, and has exact Jacobians. Splitting an interval gives the two '
              'integrations before and after the split time.',
    over=['inputs', 'histories'], quant='every state, rate, bias, noise, covariance, pose, velocity and direction, over the reals; four step lengths, three intervals, eight split times over five samples',
    why='Tests integrate a few random tracks to loose tolerances and check Jacobians at random points by finite differences, with unit noise.',
    files=['models/imu_model.cxx', 'models/imu_state.cxx', 'models/imu_state.h'],
    mech=[('ImuModel::integrate', 'models/imu_model.cxx'), ('ImuModel::Evaluate', 'models/imu_model.cxx'), ('ImuModel::computeEndState', 'models/imu_model.cxx'),
          ('ImuModel::split', 'models/imu_model.cxx'), ('ImuState', 'models/imu_state.cxx')])
E1 = ['h_dynamics', 'h_step_state', 'h_step_cov', 'h_end_state', 'h_residual', 'h_bias', 'h_jac_start', 'h_jac_end', 'h_jac_vs', 'h_jac_ve',
      'h_jac_bias', 'h_split', 'h_weight', 'h_states', 'h_err_value']
UNITS = [dict(name='imu', src='imu.cpp', repo=['models/imu_model.cxx', 'models/imu_state.cxx', 'common/utctime.cxx', 'common/quantized_time.cxx'],
              native_extra=['common/check.cxx', 'common/print.cxx'], replay_env={'SYM_JVP_H': '3e-4'},
              entries=[dict(fn=f, opts=M) for f in E1] + [dict(fn='h_order', opts=M, reach=['start'])])]
BOUNDS = ['one integration step from an arbitrary state (rotation fixed at four values for the covariance)',
          'Jacobians at fixed rotations, every translation, velocity and direction; for the bias also at one non-zero bias',
          'split: five samples with any accelerations and one angular rate']
ASSUMPTIONS = [REAL]
