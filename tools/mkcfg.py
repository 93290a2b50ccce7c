#!/usr/bin/env python3
"""writes the configurations of the model checking modules: which invariants decide which property, and how deep"""
import os
SPECS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs')
# module, property, depth quick, depth thorough, invariants, properties
T = [
    ('MC_KF', 'C01', 4, 6, 'Optimal', ''), ('MC_KF', 'C02', 4, 6, 'Optimal Forms', ''), ('MC_KF', 'C03', 4, 6, 'Optimal', 'NoneKeeps'),
    ('MC_KF', 'C04', 4, 6, 'Sequential Correlated0 CorrelatedM', ''), ('MC_KF', 'C06', 2, 4, 'Batches', ''),
    ('MC_KF', 'C07', 4, 6, 'Optimal Forms', ''), ('MC_KF', 'C08', 4, 6, 'Smoother', ''), ('MC_KF', 'C09', 4, 5, 'Evidence', ''),
    ('MC_KF', 'C16', 4, 6, 'Information', ''), ('MC_KF', 'C17', 4, 5, 'Arrays', ''), ('MC_KF', 'C22', 4, 6, 'Lagged', ''),
    ('MC_KF', 'C37', 4, 6, 'Covariance', ''),
    ('MC_Sigma', 'C14', 6, 8, 'SamePoints SameEkf', ''), ('MC_Sigma', 'C13', 6, 8, 'SamePoints', ''), ('MC_Sigma', 'C10', 6, 8, 'SameEkf', ''),
    ('MC_Sigma', 'C09', 6, 8, 'SameLik', ''), ('MC_Sigma', 'C11', 5, 7, 'Moments Skew Affine SecondOrder GaussBeta', ''),
    ('MC_Sigma', 'C12', 5, 7, 'SamePoints Circle', ''), ('MC_Sigma', 'C08', 5, 7, 'LinSmooth', ''),
    ('MC_BK', 'C20', 3, 5, 'Probabilities MixKeeps OmegaOK Spread Twins Markov Moments NoSwitch Order', ''),
    ('MC_BK', 'C21', 3, 5, 'Probabilities Spread Moments MmaeBayes NoSwitch', ''),
    ('MC_LF', 'C18', 5, 7, 'Discounted Alpha1 Grows', ''), ('MC_LF', 'C19', 5, 7, 'Minimax0 Cautious', ''),
    ('MC_GH', 'C25', 6, 8, 'Recursion Orthogonal', ''), ('MC_GH', 'C24', 0, 0, 'Variance Settled', ''),
    ('MC_GH', 'C26', 0, 0, 'Fading', ''), ('MC_GH', 'C23', 4, 6, 'Exact Compose', ''),
    ('MC_DB', 'C27', 3, 4, 'PathSum Sums Compose Commute', ''), ('MC_RS', 'C28', 0, 0, 'SweepOK Average ResidualAverage', ''),
    ('MC_ST', 'C29', 0, 0, 'Products Orderless Scaled Matrix', ''), ('MC_ST', 'C30', 0, 0, 'TotalMass Distribution Marginal OnLine', ''),
    ('MC_ST', 'C31', 0, 0, 'Ellipses AffineDistance StudentT', ''),
    ('MC_CM', 'C34', 0, 0, 'NoiseSteps Exponential ClosedForms Orderings', ''), ('MC_CM', 'C35', 0, 0, 'Trajectory KinSteps', ''),
    ('MC_CM', 'C36', 0, 0, 'RungeKutta Psd', ''), ('MC_SV', 'C32', 5, 7, 'Faithful', 'SavedForever'),
    ('MC_CP', 'C38', 6, 8, 'OwnLife', ''), ('MC_IN', 'C39', 6, 8, 'NewIsPrior Shapes', 'Alone'),
    ('MC_OWN', 'C33', 5, 6, 'Separate', 'NobodyElse'), ('MC_ENS', 'C15', 3, 4, 'Statistics Unbiased Moves', ''),
]
if __name__ == '__main__':
    for m, p, q, t, inv, prop in T:
        for suffix, d in (('', q), ('_thorough', t)):
            with open(os.path.join(SPECS, '%s_%s%s.cfg' % (m, p, suffix)), 'w') as f:
                f.write({'MC_OWN': 'CONSTANT Fresh = TRUE\n', 'MC_CP': 'CONSTANT Deep = TRUE\n', 'MC_IN': 'CONSTANT Fresh = TRUE\n'}.get(m, ''))
                f.write('CONSTANT Depth = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' % d)
                f.write('VIEW View\n' if m in ('MC_KF', 'MC_Sigma', 'MC_OWN') else '')
                f.write(''.join('INVARIANT %s\n' % i for i in inv.split()) + ''.join('PROPERTY %s\n' % i for i in prop.split()))
