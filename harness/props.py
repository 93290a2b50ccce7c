"""which driver functions, model-checking modules and traces decide each property"""
PROPS = {
    'C01': dict(drive=[('kf', 'predict')], mc=['MC_KF']),
    'C02': dict(drive=[('kf', 'update')], mc=['MC_KF']),
    'C03': dict(drive=[('kf', 'missing'), ('lf', 'missing'), ('ukf', 'missing'), ('banks', 'missing')], mc=['MC_KF']),
    'C04': dict(drive=[('kf', 'variants')], mc=['MC_KF']),
    'C05': dict(drive=[('kf', 'whatif')], mc=[]),
    'C06': dict(drive=[('kf', 'batch'), ('lf', 'batch'), ('ukf', 'batch'), ('gh', 'batch')], mc=['MC_KF']),
    'C07': dict(drive=[('kf', 'procedural')], mc=['MC_KF']),
    'C10': dict(drive=[('lf', 'ekf')], mc=['MC_Sigma']),
    'C11': dict(drive=[('ukf', 'points')], mc=['MC_Sigma']),
    'C12': dict(drive=[('ukf', 'ukf')], mc=['MC_Sigma']),
    'C13': dict(drive=[('ukf', 'ckf')], mc=['MC_Sigma']),
    'C15': dict(drive=[('banks', 'ens')], mc=['MC_ENS']),
    'C20': dict(drive=[('banks', 'imm')], mc=['MC_BK']),
    'C21': dict(drive=[('banks', 'mmae')], mc=['MC_BK']),
    'C22': dict(drive=[('banks', 'lag')], mc=['MC_KF']),
    'C23': dict(drive=[('gh', 'ghs')], mc=['MC_GH']),
    'C24': dict(drive=[('gh', 'design')], mc=['MC_GH']),
    'C25': dict(drive=[('gh', 'lsq')], mc=['MC_GH']),
    'C26': dict(drive=[('gh', 'fm')], mc=['MC_GH']),
    'C16': dict(drive=[('lf', 'info')], mc=['MC_KF']),
    'C17': dict(drive=[('lf', 'sr')], mc=['MC_KF']),
    'C18': dict(drive=[('lf', 'fading')], mc=['MC_LF']),
    'C19': dict(drive=[('lf', 'hinf')], mc=['MC_LF']),
    'C27': dict(drive=[('discrete', 'bayes')], mc=['MC_DB']),
    'C28': dict(drive=[('discrete', 'resample')], mc=['MC_RS']),
    'C29': dict(drive=[('stats', 'products')], mc=['MC_ST']),
    'C30': dict(drive=[('stats', 'density')], mc=['MC_ST']),
    'C31': dict(drive=[('stats', 'summary')], mc=['MC_ST']),
    'C32': dict(drive=[('common', 'saver')], mc=['MC_SV']),
    'C33': dict(drive=[('own', 'own')], mc=['MC_OWN']),
    'C34': dict(drive=[('common', 'noise')], mc=['MC_CM']),
    'C35': dict(drive=[('common', 'kin')], mc=['MC_CM']),
    'C36': dict(drive=[('common', 'helpers')], mc=['MC_CM']),
    'C38': dict(drive=[('kf', 'copies'), ('lf', 'copies'), ('ukf', 'copies'), ('banks', 'copies'), ('gh', 'copies')], mc=['MC_CP']),
    'C39': dict(drive=[('world', 'world')], mc=['MC_IN']),
    'C09': dict(drive=[('cross', 'lik')], mc=['MC_KF', 'MC_Sigma']),
    'C14': dict(drive=[('cross', 'peers')], mc=['MC_Sigma']),
    'C37': dict(drive=[('cross', 'cov')], mc=['MC_KF']),
    'C08': dict(drive=[('kf', 'rts'), ('ukf', 'rts')], mc=['MC_KF', 'MC_Sigma']),
}

ASSUME = [
    'the exact rational arithmetic of java/ (cross-checked by specs/RatLaws.tla) and TLC are right',
    'IEEE doubles are compared with the exact value under the tolerance of the trace module: '
    'a deviation smaller than that (1e-8 relative for most quantities) is not seen',
    'inputs are drawn from the documented argument forms, well conditioned unless the property says otherwise',
]
