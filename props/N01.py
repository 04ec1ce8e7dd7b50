PROP = dict(
    title='Rotations, rigid motions and dual quaternions form consistent groups',
    statement='Quaternion, rotation-matrix, SE(3) and dual-quaternion products are associative with identity and inverse, and conversions among them (matrix, Euler angles, '
              'axis-angle, 4x4) commute with the product. Rotating or transforming a point by a product equals applying the factors one after the other; the adjoint satisfies '
              'g exp(v) g^-1 = exp(Ad_g v) at first order. Euler-angle and matrix conversions invert each other away from gimbal lock.',
    over=['inputs'], quant='every pair/triple of unit quaternions, rotations, rigid motions, and every vector, over the reals',
    why='Tests compare a few random elements within tolerances; sign, ordering and branch errors on particular orientations survive sampling.',
    files=['common/math/quat.h', 'common/math/so3.h', 'common/math/se3.h', 'common/math/dquat.h'],
    mech=[('Quat product, rotation, R(), fromRot, euler', 'common/math/quat.h'), ('SO3', 'common/math/so3.h'), ('SE3 product, inverse, Ad', 'common/math/se3.h'),
          ('DQuat product, transform, Ad', 'common/math/dquat.h')])
E = ['h_quat_group', 'h_quat_assoc', 'h_quat_fromR', 'h_so3_q', dict(fn='h_euler', opts=dict(trig_half=True)),
     dict(fn='h_euler_inv', opts=dict(trig_half=True, nf_cmp=True)), dict(fn='h_axis_angle', opts=dict(trig_half=True)), 'h_se3_group', 'h_se3_ad', 'h_dq_group', 'h_dq_misc',
     'h_dq_ad', 'h_dq_4x4']
UNITS = [dict(name='lie', src='lie.cpp', entries=E, opts=dict(sqrt_nf=True), native_extra=[])]
BOUNDS = ['doubles are read as real numbers (rounding is outside the claim); all components symbolic with no magnitude bound; unit quaternions are '
          'parametrised by the sphere constraint.']
ASSUMPTIONS = ['sin/cos/atan2/asin/acos/sqrt are real functions constrained by their defining algebraic identities and ranges']
