M = dict(trig_half=True, nf_cmp=True, sqrt_nf=True, dec_const=True, coef_tol=1e-12)
REPO = ['models/prange_model.cxx', 'models/relative_carrier_phase_model.cxx', 'models/gnss_dynamics_model.cxx',
        'models/pose_error_model.cxx', 'common/utctime.cxx', 'common/quantized_time.cxx']


def unit(name, fns, **kw):
    E = [dict(fn=f, opts=M) if isinstance(f, str) else dict(f, opts=M) for f in fns]
    return [dict(name=name, src='models.cpp', repo=REPO, enc_flags=['-include', 'stablenorm.h'],
                 native_extra=['common/check.cxx', 'common/print.cxx'], entries=E,
                 replay_env={'SYM_JVP_H': '3e-3'}, **kw)]


REAL = ('doubles are read as real numbers and decimal literals as the number written; equalities hold exactly or with constant '
        'coefficients agreeing to 1e-12 relative; stableNorm() is read as norm()')
FIX = ('one of the poses is symbolic at a time (any rotation and translation), the others are fixed at generic values; all other '
       'quantities are symbolic')
