PROP = dict(
    title='Exponential and logarithm maps invert each other and match their definitions',
    statement='For quaternions and dual quaternions the exponential of a tangent vector is a unit element, equals the closed-form rotation (and screw motion) of that vector, and '
              'exp(log(g)) reproduces the rotation or rigid motion g, including for either sign of a quaternion. Building an element from its minimal parameters agrees with '
              'the exponential map.',
    over=['inputs'], quant='every unit element and every tangent vector away from the small-angle switch-over, over the reals',
    why='Tests try random elements; a wrong branch or sign shows only for particular rotation angles (near 0, near pi, negative scalar part).',
    files=['common/math/quat.h', 'common/math/so3.h', 'common/math/se3.h', 'common/math/dquat.h'],
    mech=[('Quat::exp / Quat::log', 'common/math/quat.h'), ('DQuat::exp / DQuat::log', 'common/math/dquat.h')])
H = dict(trig_half=True, nf_cmp=True)
E = [dict(fn=f, opts=H) for f in (
    'h_quat_exp', 'h_quat_exp_same', 'h_quat_explog', 'h_quat_param', 'h_dq_explog', 'h_dq_log_same', 'h_dq_param')]
WIP = [dict(fn=f, opts=H) for f in (
    'h_quat_logexp', 'h_quat_exp_jac', 'h_quat_log_jac_left',
    'h_quat_log_jac_right', 'h_so3_explog', 'h_so3_logpi', 'h_so3_exp_jac', 'h_se3_explog', 'h_se3_log_same',
    'h_se3_exp_jac', 'h_dq_logexp', 'h_dq_exp_jac_left', 'h_dq_exp_jac_right')]
UNITS = [dict(name='lie', src='lie.cpp', entries=E, opts=dict(sqrt_nf=True), native_extra=[])]
BUDGET = 120
BOUNDS = ['doubles are read as real numbers; components symbolic without magnitude bound; the general (not small-angle series) branches.']
ASSUMPTIONS = ['sin/cos/atan2/acos/sqrt are real functions constrained by their defining algebraic identities and ranges']
