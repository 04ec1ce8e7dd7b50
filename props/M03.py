from ._models import unit, REAL
PROP = dict(
    title='Clock and pose-prior factors match their definitions, with exact Jacobians',
    statement='The clock factor penalises the departure from a clock whose bias advances by the mean rate over the interval and whose rate and switch are constant, each with its own '
              'weight; its Jacobians are exact. The pose prior is the weighted logarithm of anchor^-1 * pose and its Jacobian the weighted right Jacobian of that logarithm.',
    over=['inputs'], quant='every clock state, switch, weight, interval (half-second offsets, up to 1000 s), pose and direction, over the reals',
    why='Tests use unit weights only, so a weight missing from one residual or Jacobian row is invisible.',
    files=['models/gnss_dynamics_model.cxx', 'models/pose_error_model.cxx'],
    mech=[('GnssDynamics::Evaluate', 'models/gnss_dynamics_model.cxx'), ('PoseError::Evaluate', 'models/pose_error_model.cxx')])
UNITS = unit('dynpose', ['h_gnss_dyn', 'h_pose_err', 'h_pose_err_jac'])
BOUNDS = ['pose prior: one fixed anchor; residual for every pose, Jacobian for three fixed rotations and any translation']
ASSUMPTIONS = [REAL]
