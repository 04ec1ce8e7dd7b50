from ._models import unit, REAL, FIX
PROP = dict(
    title='Relative carrier-phase factor equals the two-epoch range change',
    statement='The relative carrier-phase residual is the weighted difference between the measured phase change and the change of the predicted range (geometry, Earth rotation, both '
              'clocks) between the two epochs. Every Jacobian block is the derivative of the residual up to the neglected Earth-rotation term. Observations of different '
              'satellites, constellations or frequencies, or a satellite without ephemeris, are refused.',
    over=['inputs'], quant='every pair of poses, satellite states, clocks, switches, lever arm, wavelength and weight, over the reals',
    why='Tests use one random configuration with weight one and satellites without clock error.',
    files=['models/relative_carrier_phase_model.cxx', 'models/relative_carrier_phase_model.h'],
    mech=[('RelativeCarrierPhase::RelativeCarrierPhase', 'models/relative_carrier_phase_model.cxx'), ('RelativeCarrierPhase::Evaluate', 'models/relative_carrier_phase_model.cxx')])
UNITS = unit('relcp', ['h_rc_res_b1', 'h_rc_res_b2', 'h_rc_res_r2n', 'h_rc_res_e2r', 'h_rc_units', dict(fn='h_rc_jac_b1', cost=3), dict(fn='h_rc_jac_b2', cost=3),
                       'h_rc_jac_c1', 'h_rc_jac_c2', 'h_rc_jac_s1', 'h_rc_jac_s2', dict(fn='h_rc_jac_r2n', cost=2), dict(fn='h_rc_jac_pbg', cost=2),
                       dict(fn='h_rc_jac_pbg2', cost=2), dict(fn='h_rc_refuse', reach=['before'])])
BOUNDS = [FIX, 'the derivative against the reference pose is taken with a fixed lever arm']
ASSUMPTIONS = [REAL, 'the satellite is a stand-in that returns arbitrary states']
