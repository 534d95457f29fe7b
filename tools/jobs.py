"""Which harness instances decide which property, per tier.

Every job is one symbolic execution of one harness with concrete shape arguments (dimension, population size, ...);
everything else the harness reads is symbolic. The argument meanings are documented at the harness (harness/src/g*.rs).
`reach`: labels that must be reached by the jobs of a property taken together (vacuity witnesses).
"""

def grid(h, *axes):
    out = [[]]
    for a in axes:
        a = a if isinstance(a, (list, tuple, range)) else [a]
        out = [o + [x] for o in out for x in a]
    return [(h, o) for o in out]

def X(jobs, noise=0, mean=0, levels=0, stride=0):
    """the same instances under the general modifiers of harness/src/common.rs (arguments 11 to 14)"""
    out = []
    for h, a in jobs:
        for z in (noise if isinstance(noise, (list, tuple)) else [noise]):
            for m in (mean if isinstance(mean, (list, tuple)) else [mean]):
                out.append((h, a + [0] * (11 - len(a)) + [z, m, levels, stride]))
    return out

# option settings that must not matter (common.rs: noise)
QUIET = [1, 2, 4, 8, 32]
FIRING = [256, 512, 1024, 2048, 4096, 7936]

Q, T = {}, {}

# C01 option validation
Q['C01'] = (grid('c01_build', [1, 2, 3], [0, 1, 2], [0, 1], 64) + grid('c01_build', 0, [0, 1, 2], [0, 1], 8)
            + grid('c01_build', 1, 2, 0, 1100) + grid('c01_restart', [0, 1]) + grid('c01_strategy', [0, 1, 2]))
T['C01'] = Q['C01'] + grid('c01_build', [1, 2, 5, 10], [0, 1, 2], [0, 1], 1000)

# C02 configuration
Q['C02'] = (grid('c02_options', [1, 2, 3], [0, 2, 5], 0, 0, 1) + grid('c02_options', [2, 3], [4, 7], [16383, 32767], [0, 1, 2, 3], 1)
            + grid('c02_options', 2, 0, [1 << k for k in range(14)], [0], 1)
            + grid('c02_options', [4, 5, 7, 10], 0, 0, 0, 1))
Q['C02'] += grid('c02_options', [2, 3], [0, 5], [32768, 49151, 65535], [0, 2], 1)
# the setters of the mean and the step size; constraints, resampling limit and plot configured too
Q['C02'] += grid('c02_options', [2, 3], [0, 7], [65536, 131072, 65536 + 16383, 65536 + 131072 + 32767], [0, 1, 2, 3], 1)
T['C02'] = Q['C02'] + grid('c02_options', range(1, 9), [0, 2, 3, 8, 13], [0, 16383, 32767, 0x1555, 0x2aaa], [0, 1, 2, 3], 2)

# C03 counts
Q['C03'] = (grid('c03_counts', 2, 3, 2, [0, 1, 2, 3], [0, 2], [0, 1], 0) + grid('c03_counts', 1, 2, 2, [0, 3], [1], 0, 0)
            + grid('c03_counts', 2, [2, 3], 1, [0, 3], 2, 0, [3]) + grid('c03_counts', 3, 4, 1, [0, 1], 2, 1, 0)
            + grid('c03_run', 2, 3, [0, 2], [0, 1], [0, 1, 2, 3]))
Q['C03'] += (X(grid('c03_counts', 2, 3, 1, [0, 3], [0, 2], [0, 1], 0), QUIET + FIRING) + X(grid('c03_counts', 2, 3, 1, [0, 1], 0, 0, 0), 0, [1, 3])
             + X(grid('c03_counts', [1, 2, 4], [9, 17], 1, [0, 3], 0, 0, 0), 0, 0, 4, 6) + X(grid('c03_counts', 2, 17, 2, [0, 3], 0, 0, 0), 0, 0, 3, 13) + X(grid('c03_run', 2, 3, 0, 0, [0, 1]), [1, 2, 8, 32, 2048]) + X(grid('c03_run', 2, 9, 0, 0, [0, 3]), 0, 0, 5, 7))
Q['C03'] += X(grid('c03_counts', [1, 2], [3, 5], 1, [0, 1, 2, 3], 0, 0, 0), 0, 5) + X(grid('c03_run', 2, 3, 0, 0, [0, 3]), 0, 5)
T['C03'] = (Q['C03'] + X(grid('c03_counts', [1, 2, 4], 17, 2, [0, 3], 0, 0, 0), 0, 0, 4, 6) + X(grid('c03_run', 2, 3, [0, 2], [0, 1], [0, 1]), [1, 2, 8, 32, 2048]) + grid('c03_counts', 2, 3, 3, [0, 3], 2, 0, 0) + grid('c03_counts', 2, 5, 1, [0, 1], 2, 0, 0)
            + grid('c03_counts', 3, 4, 2, [0, 3], 2, 0, 0) + grid('c03_counts', 2, 3, 1, [0, 1], 2, 0, 6))

# C04 bests
Q['C04'] = (grid('c04_best', 2, 3, 2, [0, 1], [0, 2], [0, 1, 3]) + grid('c04_best', 1, 2, 2, [0, 1], [1], [0]) + grid('c04_best', 2, 4, 1, [0, 1], 2, 0)
            + grid('c04_best', 2, 5, 1, [0], 2, 1))
Q['C04'] += (X(grid('c04_best', 2, 3, 1, [0, 1], 0, [0, 1]), QUIET + FIRING) + X(grid('c04_best', 2, 3, 1, [0, 1], 0, [0, 1]), 0, [1, 2, 3]) + X(grid('c04_best', 2, 15, 2, [0, 1], 0, [0, 1]), 0, 0, 4, 9)
             + X(grid('c04_best', 2, [25, 41], 1, [0, 1], 0, [0, 1]), 0, 0, 3, 23))
T['C04'] = Q['C04'] + X(grid('c04_best', [2, 3], 15, 2, [0, 1], [0, 2], [0, 1]), 0, 0, 4, 9) + grid('c04_best', 1, 2, 3, [0, 1], [1], [0]) + grid('c04_best', 3, 4, 2, [0, 1], 2, [0, 1]) + grid('c04_best', 2, 3, 3, [0, 1], 2, 0) + grid('c04_best', 2, 5, 2, [0, 1], 2, 0)

# C05 rank invariance
Q['C05'] = (grid('c05_rank', 2, 3, 2, [0, 1], [0, 2], 0, 3) + grid('c05_rank', 2, 3, 2, 0, 2, 1, 4) + grid('c05_rank', 2, 4, 1, [0, 1], [1, 2], [0], 3) + grid('c05_rank', 1, 2, 2, [0, 1], 2, 0, 5))
Q['C05'] += (X(grid('c05_rank', 3, [25, 61], 1, [0, 1], 0, 0, 3), 0, 0, 4, 31) + X(grid('c05_rank', 3, 33, 1, [0, 1], 2, 1, 3), 0, 0, 4, 31) + X(grid('c05_rank', 2, 15, 2, [0, 1], 0, 0, 3), 0, 0, 3, 9) + X(grid('c05_rank', 2, 3, 2, [0, 1], 0, 0, 6), [7, 40, 64, 7936])
             + X(grid('c05_rank', 2, 3, 1, [0, 1], 0, 0, 6), 0, [1, 2, 4]))
T['C05'] = Q['C05'] + X(grid('c05_rank', 3, [25, 33, 61], 1, [0, 1], [0, 2], [0, 1], 3), 0, 0, 4, 31) + grid('c05_rank', 3, 4, 2, [0, 1], 2, 0, 7) + grid('c05_rank', 2, 5, 1, [0, 1], 2, 0, 3) + grid('c05_rank', 2, 3, 3, 0, 2, 0, 3)

# C06 NaN
Q['C06'] = grid('c06_nan', 2, 3, 2, [0, 1], [0, 1, 3], [0, 2]) + grid('c06_nan', 1, 2, 2, [0, 1], 0, 2) + grid('c06_nan', 2, 4, 1, [0, 1], [0, 1], 2)
Q['C06'] += (X(grid('c06_nan', [1, 2], [2, 3], 1, [0, 1], [0, 1], 0), 0, 3) + X(grid('c06_nan', 2, 3, 2, [0, 1], [0, 1], 0), [7, 40, 256, 7936]) + X(grid('c06_nan', 2, 9, 2, [0, 1], [0, 1], [0, 2]), 0, 0, 4, 11) + X(grid('c06_nan', 2, 24, 1, [0, 1], [0, 1], 0), 0, 0, 4, 11))
T['C06'] = Q['C06'] + grid('c06_nan', 1, 2, 3, [0, 1], 0, 2) + grid('c06_nan', 3, 4, 2, [0, 1], [0, 1], 2) + grid('c06_nan', 2, 3, 3, [0, 1], 0, 2)

# C07 budgets
Q['C07'] = grid('c07_budget', 2, 3, 3, [0, 1, 2, 4, 3, 7], [0, 1], [0, 1]) + grid('c07_budget', 1, 5, 3, 7, [0, 3], 0) + grid('c07_run', 2, 3, [1, 2, 3], [0, 1])
Q['C07'] += X(grid('c07_budget', 2, 3, 3, [0, 7], [0, 1], [0, 1]), [1, 4, 8, 32, 256, 512, 2048, 2816]) + X(grid('c07_budget', 2, 8, 12, [1, 2], [0, 1], 0), 0) + X(grid('c07_run', 2, 3, [1, 2, 3], [0, 1]), [1, 4, 8, 32, 64])
T['C07'] = Q['C07'] + grid('c07_budget', 3, 7, 6, 7, [0, 1], [0, 1]) + grid('c07_run', 2, 4, [1, 2, 3], [0, 1, 2, 3])

# C08 target
Q['C08'] = grid('c08_target', 2, 3, 2, [0, 1], [0, 1]) + grid('c08_target', 2, 4, 1, [0, 1], [0, 3]) + grid('c08_target', 1, 2, 2, [0, 1], [0])
Q['C08'] += X(grid('c08_target', 2, 3, 1, [0, 1], [0, 1]), [2, 4, 8, 32, 512, 1024, 2048, 4096, 7680]) + X(grid('c08_target', 2, 9, 2, [0, 1], [0, 1]), 0, 0, 4, 13) + X(grid('c08_target', 2, 25, 1, [0, 1], [0, 1]), 0, 0, 4, 13) + X(grid('c08_target', 1, 3, 1, [0, 1], 0), 0, [1, 3])
T['C08'] = Q['C08'] + grid('c08_target', 2, 3, 3, [0, 1], 0) + grid('c08_target', 2, 5, 1, [0, 1], [0, 1])

# C09 tolerances on values
Q['C09'] = (grid('c09_tolfun', 2, 3, [0, 1], [0, 1], [6, 24], 0, 0) + grid('c09_tolfun', 2, 3, 0, 0, 3, 0, 0) + grid('c09_tolfun', 2, 3, [0, 1], 2, [3, 33], 2, 0))
# shapes where ceil(30 N / lambda) differs from the floor or the rounded value
WINDOW = sum([grid('c09_window', 2, l, l, [0, 1], [0, 1, 2], m) for l, m in ((11, 1), (13, 2), (7, 3), (33, 2))], [])
Q['C09'] += (grid('c09_window', 2, 2, 12, [0, 1], [0, 1, 2], 0) + grid('c09_window', [1, 3, 5], 3, 9, 0, [0, 1], [0, 1, 2]) + WINDOW
             + X(grid('c09_window', 2, 5, 5, [0, 1], [0, 1, 2], 0), [1, 2, 8, 32, 64, 256, 512, 1024]))
Q['C09'] += grid('c09_long', 1, [300, 20010], 0, 3) + grid('c09_long', 1, [300, 20010], 1, 2)
T['C09'] = Q['C09'] + grid('c09_tolfun', 2, [2, 5], 0, 3, 3, 2, 1) + grid('c09_tolfun', 2, 3, [0, 1], 2, 65, 2, 0) + grid('c09_tolfun', 2, [3, 5], [0, 1], [0, 1, 2, 3], [7, 36, 96], 2, [0, 2])

# C10 stagnation
Q['C10'] = grid('c10_stagnation', 2, [53, 85], [0], [0], 3, 0) + grid('c10_stagnation', 1, [65], [0], [2], 3, [0])
Q['C10'] += X(grid('c10_stagnation', 2, 53, 0, [0], 3, 0), [7936, 64]) + X(grid('c10_stagnation', 2, 53, 1, [0], 3, 0), 7936)
Q['C10'] += grid('c10_long', 1, 10000, [0, 1], 2, [0, 1], 0) + grid('c10_long', 1, 6000, 0, 3, [0, 2], [0, 1])
T['C10'] = Q['C10'] + grid('c10_stagnation', 2, [53, 65, 85, 110], [0, 1], [0, 1, 2, 3, 4], [3, 5], [0, 1, 5]) + grid('c10_long', 1, [100003, 100009], 0, 2, [0, 1], 0) + grid('c10_long', 1, 100003, 1, 3, [0, 2], [0, 1]) + grid('c10_long', 1, 20004, [0, 1], [2, 3], [0, 1, 2], [0, 1])

# C11 distribution criteria
Q['C11'] = grid('c11_tol', 2, 3, 2, [2], [0, 1, 2], [1], [0, 1, 2]) + grid('c11_tol', 2, 3, 2, 0, 0, 2, 0) + grid('c11_noeffect', 2, 3, 2, 2, 1)
Q['C11'] += (X(grid('c11_tol', [3, 5], 7, 1, [0, 2], 0, 1, 0, 7) + grid('c11_tol', [2, 3, 4, 5], 7, 1, [0, 1], [1, 2], [1, 4], 0, 7), 0, 0, 3, 4) + grid('c11_tol', [1, 5], 3, 2, [1, 2], [0, 1, 2], 1, 0) + grid('c11_tol', 4, 3, 1, [1, 2], [0, 1, 2], 1, 0) + X(grid('c11_tol', 3, 3, 1, [0, 2], [0, 1, 2], [1], [0, 2]), [1, 8, 32, 256, 1024, 2048])
             + X(grid('c11_tol', [3, 5], 9, 1, [0, 1, 2], [0, 1, 2], 1, [0, 1, 2]), 0, 0, 5, 6))
T['C11'] = Q['C11'] + X(grid('c11_tol', [2, 3, 4, 5], 7, 1, [0, 1, 2], [0, 1, 2], [1, 4], 0, 7), 0, 0, 3, 4) + grid('c11_noeffect', 2, 3, 2, [0, 2], [1, 2]) + grid('c11_tol', [2, 3], [3, 5], 3, [2], [0, 1, 2], [1, 2], [0, 1, 2]) + grid('c11_noeffect', [1, 2, 3], 3, 3, 2, [1, 2])

# C12 update equations
Q['C12'] = (grid('c12_params', [1, 2, 3, 5, 10], 2, 24) + grid('c12_update', 2, 4, 1, [0, 1, 2], [1, 2], [0, 1], 0, 0, 0, [0])
            + grid('c12_update', 2, 3, 2, [0, 1, 2], 1, 0, 0, [0, 1], 0, [0, 1]))
Q['C12'] += (grid('c12_update', [1, 2, 4], 3, 1, [1, 2], 1, 0, 1, 0, 0, 0, [1, 2]) + grid('c12_update', [1, 2, 3, 5], [2, 3, 5, 9, 12], 0, [0, 1, 2], 1, [0, 1], 3, 0, [0], 0, [1]) + grid('c12_update', [1, 2, 4], [5, 6, 9], 0, [0, 1, 2], 1, [0, 2], 3, 1, [1], 1, [3, 4])
             + X(grid('c12_update', 2, 7, 1, [0, 1, 2], 1, [0, 3], 1, [0, 1], 0, 0), 0, [0, 1], 4, 6) + X(grid('c12_update', 3, 9, 1, [0, 1, 2], 1, [0, 3], 1, 0, 0, 1), 0, 0, 4, 6))
T['C12'] = Q['C12'] + X(grid('c12_update', [2, 3], [7, 9, 13], 1, [0, 1, 2], 1, [0, 3], 1, [0, 1], 0, [0, 1]), 0, [0, 1], 5, 6) + grid('c12_update', 3, 4, 1, [0, 1, 2], 1, 1, 3, 0, 0, 0) + grid('c12_params', [20, 40, 100], 2, 60) + grid('c12_update', 3, 5, 1, [0, 1, 2], [1, 2, 3], [0, 1], [0, 5], [0, 1], [0, 1], [0, 1])

# C13 covariance
Q['C13'] = (grid('c13_cov', 2, 4, 1, [0, 1, 2], [1, 2], 0, 0, 0, 0, 0) + grid('c13_cov', 2, 3, 2, [0, 2], 1, 0, 0, 0, 0, [0, 1])
            + grid('c13_sample', 2, 3, 1, [0, 2], [0, 3], [0, 1]) + grid('c13_sample', 3, 4, 1, 2, [0], 0))
Q['C13'] += (grid('c13_cov', [1, 2, 4], 3, 1, [1, 2], 1, 0, 1, 0, 0, 0, [1]) + grid('c13_cov', [1, 2, 3], [2, 3, 4, 6, 7, 8, 9, 11, 12], 0, [0, 1, 2], 1, [0], 3, 0, [0], 0, [1]) + grid('c13_cov', [4, 5], [4, 7], 0, [0, 1, 2], 1, [0], 3, 0, [0], 0, [1]) + grid('c13_cov', [1, 3], 5, 0, [0, 1, 2], 1, 1, 4, 1, [1, 2], 1, [3])
             + X(grid('c13_cov', 2, 7, 1, [0, 1, 2], 1, [0], 2, [0, 1], 0, 0), 0, [0, 1], 4, 6) + grid('c13_sample', [1, 4], [5, 9], 0, [0, 1, 2], [6], 2))
T['C13'] = Q['C13'] + grid('c13_cov', [1, 2, 3, 4, 5], [2, 3, 4, 6, 7, 8, 9, 11, 12], 0, [0, 1, 2], 1, [0], 4, 0, [0], 0, [1]) + X(grid('c13_cov', [2, 3], [7, 9], 1, [0, 1, 2], 1, [0], 2, [0, 1], 0, [0, 1]), 0, [0, 1], 5, 6) + grid('c13_cov', 2, 3, 2, [0, 2], 1, 0, 4, 0, 0, [0, 1]) + grid('c13_cov', 3, 4, 1, 2, 1, 0, 6, 0, 0, 0) + grid('c13_sample', 3, 4, 1, 2, 2, 0) + grid('c13_cov', 3, 5, 1, [0, 1, 2], [1, 2], [0, 1], [0, 8, 20], 0, [0, 1], [0, 1]) + grid('c13_sample', 3, 5, 1, [0, 2], [0, 5], [0, 1])

# C14 constraints
Q['C14'] = (grid('c14_resample', 2, 3, [0, 1, 2, 3, 4], 6, [0, 1], 1) + grid('c14_resample', 2, 2, 100, 8, 0, 1) + grid('c14_resample', 1, 2, [0, 2], 4, 0, 2)
            + grid('c14_resample', 2, 2, 11, 21, 0, 1) + grid('c14_bounds', [1, 2, 3, 4]) + grid('c14_box', [1, 2], [3, 4], [0, 2], [1, 2]))
Q['C14'] += X(grid('c14_resample', 2, 3, [0, 1, 3], 5, [0, 1], 1), [1, 2, 4, 8, 64, 7936]) + X(grid('c14_resample', [1, 3], 2, [0, 2, 3], 4, [0, 1, 3], 2), 0, [0, 1, 2, 4]) + grid('c14_resample', 2, [6, 9], [2, 3], 11, [0, 1], 1)
T['C14'] = Q['C14'] + grid('c14_resample', 2, 4, [0, 2, 3, 5, 100], 9, [0, 1], 1) + grid('c14_bounds', [5, 6]) + grid('c14_box', [2, 3], 5, [0, 2, 100], [3, 4])

# C15 parallel
Q['C15'] = (grid('c15_parallel', 2, 3, 1, 0, [2, 3], 4, [0, 2], [0, 1]) + grid('c15_parallel', 2, 4, 2, 1, [1, 2, 3, 8], 6, 2, 0) + grid('c15_parallel', 2, 5, 1, 1, 4, 8, 2, 1)
            + grid('c15_update', 2, 4, 1, 1, [1, 2, 3, 8], 6, [0, 2], 0) + grid('c15_update', 2, 3, 1, 0, 2, 3, 2, [0, 1]))
Q['C15'] += (grid('c15_update', [2, 3], [5, 7, 9], 2, 1, [2, 4], 4, [0, 1, 2], [0, 1]) + X(grid('c15_parallel', 2, [5, 7], 2, 1, [2, 4], 4, [0, 1], 0), [2, 8, 32, 64, 2048]) + grid('c15_parallel', [1, 3], [2, 9, 17], 2, 1, [2, 8], 5, 0, [0, 1]))
Q['C15'] += grid('c15_update', 2, [24, 40], 1, 2, [2, 8], 4, [0, 1], [0, 1]) + grid('c15_parallel', 2, [24, 33], 2, 2, 4, 4, 0, [0, 1])
T['C15'] = Q['C15'] + grid('c15_parallel', 3, 6, 2, 1, [2, 3, 4, 8, 16], 10, 2, 0) + grid('c15_update', 3, 6, 2, 1, [2, 4, 16], 10, 2, 0) + grid('c15_parallel', 2, 3, 2, 0, 2, 4, 2, 0)

# C16 determinism
Q['C16'] = grid('c16_seed', 2, 3, 1, [5, 6], [0, 2], [0, 1]) + grid('c16_seed', 2, 2, 1, 7, 2, 0) + grid('c16_restart', 0, 1, 12) + grid('c16_restart', [1, 2], [1], 6)
Q['C16'] += (grid('c16_seed', 2, 3, [1, 2, 5], [5, 0], [0, 1], [0, 1], 1) + grid('c16_seed', 2, 3, 1, 6, 0, 0, [2, 3]) + X(grid('c16_seed', 2, 3, 2, 6, 0, 0, 1), [1, 2, 4, 32, 64, 7936]) + grid('c16_seed', 1, 3, 1, [0, 18446744073709551610], 0, 0, 0))
Q['C16'] += grid('c16_restart', [0, 1, 2], [1, 3], 40, 1)
T['C16'] = Q['C16'] + grid('c16_restart', [0, 1, 2], [1, 2], 14) + grid('c16_seed', 1, 2, 2, 7, 2, 0) + grid('c16_seed', 2, 3, 2, 5, 2, [0, 1]) + grid('c16_restart', 0, [3, 4, 5], 20)

# C17 wrappers
Q['C17'] = grid('c17_scale', [1, 2, 3]) + grid('c17_fmin', [0, 1, 2, 3], 1, 3) + grid('c17_invalid', [0, 1, 2, 3])
T['C17'] = Q['C17'] + grid('c17_scale', [4, 5]) + grid('c17_fmin', [0, 1, 2, 3], 2, 4)

# C18 restart results
Q['C18'] = (grid('c18_agg', 3, 2, 1, [0], [0, 1], [0, 1, 2, 3], 0) + grid('c18_agg', 3, 2, 1, [1, 2, 3], [0, 1], [3], 0) + grid('c18_agg', 2, 3, 1, 0, [0, 1], [3], 1) + grid('c18_agg', 3, 1, 1, [0, 1], 0, 2, 1)
            + grid('c18_time', [1, 2, 3]))
Q['C18'] += grid('c18_agg', 3, 2, 2, 0, [0, 1], 3, 2) + grid('c18_agg', 3, 2, 2, 1, [0, 1], 1, 2) + grid('c18_agg', 3, 1, 3, 0, [0, 1], 3, 2) + grid('c18_agg', 3, 2, 2, [2, 3], 1, 2, 2)
T['C18'] = Q['C18'] + grid('c18_agg', 3, 3, 2, [0, 1], [0, 1], [1, 2], 2) + grid('c18_agg', 3, 2, 1, 0, [0, 1], 3, 1) + grid('c18_agg', 3, 3, 1, 0, [0, 1], [1, 2], 0) + grid('c18_agg', 3, 1, 2, 0, [0, 1], 2, 0)

# C19 schedules
Q['C19'] = (grid('c19_schedule', [0, 1, 2], [3, 4], [2, 3], 100, 2) + grid('c19_lr_limit', [4, 6], [0, 1], 3, 200, [1, 2]) + grid('c19_no_panic', [0, 1, 2, 3], [1]))
T['C19'] = Q['C19'] + grid('c19_schedule', [0, 1, 2], [3, 5, 8], [1, 2, 3, 5], 400, 6) + grid('c19_lr_limit', [4, 6], [0, 1], 4, 600, [1, 2, 3]) + grid('c19_no_panic', [0, 1, 2, 3], [0])

# C20 options of the runs
Q['C20'] = grid('c20_options', [0, 1, 2], 2, 3, 1, [0, 1], [0, 1], [0, 1]) + grid('c20_objective', [0, 1, 2], 3, [0, 1, 2, 3])
Q['C20'] += grid('c20_runs', [0, 1, 2], 2, 4, 3, [0, 1, 2, 3], [1, 2, 4, 5]) + grid('c20_runs', [0, 1, 2], [1, 3], [3, 6], [1, 2], [0, 3], [1, 2])
Q['C20'] += grid('c20_long', 2, 1, 4, 3, [0, 1], [1, 2], 160) + grid('c20_long', 2, 2, 5, [1, 2], [0, 1], [0, 5], 160) + grid('c20_long', [0, 1], [1, 2], 3, [2, 3], 0, [3, 4], 200)
Q['C20'] += grid('c20_long', [0, 1, 2], [1, 2], [3, 5], 2, [0, 1], [6, 10], 120)
Q['C20'] += grid('c20_long', 2, 1, 10, 30, [0, 1], 1, 700, [1, 2]) + grid('c20_long', [0, 1], 1, 8, 18, 0, [2, 5], 400, [1, 2])
T['C20'] = Q['C20'] + grid('c20_long', [0, 1, 2], [1, 2, 3], [3, 6], [1, 4], [0, 1], [0, 1, 2, 5], 600) + grid('c20_options', [0, 1, 2], 3, 4, 2, [0, 1, 2], [0, 1], [0, 1])

# C21 plotting
Q['C21'] = grid('c21_plot', [1, 2], 3, 4, [1, 2, 3]) + grid('c21_run', 2, [3, 4], [0, 1], 4) + grid('c21_nan', 2, [2, 3])
Q['C21'] += X(grid('c21_plot', 2, 3, 4, [1, 3]), FIRING)
T['C21'] = Q['C21'] + grid('c21_plot', 2, [2, 5], 6, [1, 2, 3]) + grid('c21_run', 2, 5, [0, 1], 8)

# C22 printing
Q['C22'] = grid('c22_next', 2, [2, 3], 6, [0, 1]) + grid('c22_run', 2, [3, 4], [0, 1], 6) + grid('c22_same', 2, 3, 3)
Q['C22'] += X(grid('c22_next', 2, 3, 6, [0, 1]), FIRING)
T['C22'] = Q['C22'] + grid('c22_next', 3, [5], 10, [0, 1]) + grid('c22_run', 2, [5], [0, 1], 10)

# C25 robustness
Q['C25'] = (grid('c25_calls', [1, 2], [2, 3], 1, [0, 1], [0, 2], [0, 1, 2]) + grid('c25_extremes', 2, [4, 5], 4, [0, 1, 2], [0, 1], 1) + grid('c25_extremes', [1, 3], 4, 3, [0, 2], 0, 2)
            + grid('c25_infinities', [2, 3], [30, 60], 0, 5, [0, 1], [3, 5]) + grid('c25_infinities', 4, 45, [0, 9], 4, [0, 1], 7))
T['C25'] = Q['C25'] + grid('c25_calls', [1, 2], 3, 2, [0, 1], [0, 2], [0, 1]) + grid('c25_calls', 3, 5, 1, [0, 1], [0, 1], [0, 3]) + grid('c25_extremes', [1, 2, 3], [4, 7], 8, [0, 1, 2], [0, 1], [1, 2]) + grid('c25_infinities', [2, 4, 5], [60, 120], [0, 20], 8, [0, 1], [1, 4])

# C26 printed text
Q['C26'] = (grid('c26_text', 2, 3, 5, [0, 2], [0, 1], [0, 1, 2], 2, 7) + grid('c26_text', 2, 4, 5, [0, 1], [0, 1], [0, 1, 2], 1, 7) + grid('c26_text', [1, 3, 5], 5, 4, [0, 1], 0, [0, 1], 1, [0, 18446744073709551615])
            + grid('c26_text', 2, 33, 3, [0, 1], 1, [0, 2], 1, 12345678901234567) + grid('c26_text', [2, 4], 5, 6, [0, 1, 2], [0, 1], 3, 2, 7))
# several reasons at once
Q['C26'] += X(grid('c26_text', 2, 3, 3, [0, 1], [0, 1], [0, 1, 2], 1, 7), FIRING) + X(grid('c26_text', [1, 4], 5, 2, [0, 2], 1, 1, 1, 7), [7936, 1536, 2816])
T['C26'] = Q['C26'] + grid('c26_text', [2, 4], [3, 5, 6], 8, [0, 1, 2], [0, 1], [0, 1, 2], 2, [1, 2])

# C27 printed restarts
Q['C27'] = (grid('c27_restart', 0, 3, [0, 1, 2, 3], [0, 1], [0, 1, 2, 3], 1000, 1) + grid('c27_restart', 0, 3, [0, 3], [0, 1], 1, 1000, 2)
            + grid('c27_restart', 0, [2, 5], [0, 3], [0, 1], 2, 1000, [2, 3]) + grid('c27_restart', 1, 3, [0, 3], [0, 1], 2, 60, 2)
            + grid('c27_restart', [1, 2], 3, [0, 3], [0, 1], [1, 2], 40, 1) + grid('c27_restart', [1, 2], 3, [1, 2], 0, 0, 40, 1))
Q['C27'] += grid('c27_restart', 0, 3, [0, 3], 0, 0, 1000, 1, [1, 2]) + grid('c27_restart', [1, 2], 3, 0, 0, 0, 40, 1, [1, 2])
T['C27'] = (Q['C27'] + grid('c27_restart', 0, [2, 3, 5], [0, 3], [0, 1], 1, 1000, [2, 3]) + grid('c27_restart', [1, 2], [3, 4], [0, 1, 2, 3], [0, 1], [0, 1, 2, 3], [40, 100], 1)
            + grid('c27_restart', 1, [3, 4], [0, 1, 2, 3], [0, 1], [1, 2, 3], 120, [2, 4]))

# C28 accessors
Q['C28'] = grid('c28_interval', [1, 2, 3, 5], 2, 16) + grid('c28_interval', [1, 2, 4], 17, 40) + grid('c28_accessors', [1, 2, 3, 5], [3, 5], 0, [0, 1, 2]) + grid('c28_accessors', [1, 2], 3, 1, [0, 2]) + grid('c28_accessors', 2, 2, 1, 1) + X(grid('c28_accessors', [2, 4], [12, 25], 1, [0, 1]), 0, 0, 3, 9)
Q['C28'] += grid('c28_accessors', [2, 3, 4, 5], [7, 8], 0, [0, 1, 2], [4, 9])
Q['C28'] += grid('c28_created', [0, 1, 2, 3, 4], 2)
T['C28'] = Q['C28'] + grid('c28_interval', [1, 2, 3, 4, 5], 2, 40) + grid('c28_interval', [10, 30], 2, 40) + grid('c28_accessors', 2, 3, 2, [0, 1, 2]) + grid('c28_accessors', [2, 3], 4, 1, [0, 1, 2])

# C29 recorded plot data
Q['C29'] = grid('c29_data', [1, 2], [3, 4], 5, 0, [0, 1], 0, 1, [3, 4], 1) + grid('c29_data', 2, [3, 4], 3, [0, 2], [0, 1], 1, [1, 2, 3], [3, 4]) + grid('c29_data', [1, 3], 5, 3, [0, 1], 0, 1, [1, 3], 5) + grid('c29_data', 5, 9, 3, 0, 1, 1, 3, 6)
Q['C29'] += grid('c29_data', [3, 4, 5], [5, 8], 8, [0, 1, 2], [0, 1], 0, 1, [3, 4])
Q['C29'] += X(grid('c29_data', [1, 2], 3, 4, 0, 0, 0, [1, 3], 3), FIRING)
T['C29'] = Q['C29'] + grid('c29_data', [2, 3], [2, 4, 5], 5, [1, 2], [0, 1], 0, [1, 2], [3, 4], 1) + grid('c29_data', [2, 4], [3, 4, 6], 4, [0, 1, 2], [0, 1], [1, 2], [1, 2, 3], [3, 4])

# C30 scaling and shifting the search space
Q['C30'] = (grid('c30_equivariance', 2, 3, 2, [0, 1], [0, 2], [0, 3, 4], 0) + grid('c30_equivariance', [1, 2, 3], 3, 1, 0, [0, 1, 2], [1, 2, 5, 6], [3, 6], [0, 1])
            + grid('c30_equivariance', [4, 5], 8, 1, [0, 1], 0, [0, 3, 6], 8, 0, 2) + grid('c30_equivariance', [1, 2], 17, 1, 0, [0, 1], [1, 5], 4, 0, 1))
T['C30'] = Q['C30'] + grid('c30_equivariance', [2, 3], [3, 4], 2, [0, 1], [0, 1, 2], range(7), 0) + grid('c30_equivariance', [3, 5], [7, 9], 1, [0, 1], [0, 1, 2], range(7), [4, 12], [0, 1], 2)

# C31 termination options observe
Q['C31'] = grid('c31_observer', 1, 10, 24, range(11), [0, 2047], [0, 1], 0) + grid('c31_observer', [2, 3], 5, 6, range(11), [1365, 682], [0, 1], 1)
T['C31'] = Q['C31'] + grid('c31_observer', [1, 2], [6, 12], 40, range(11), [0, 99, 1023, 2047], [0, 1], [0, 1, 2])

# vacuity witnesses: harness:label that the jobs of a property must reach
REACH = {
    'C01': ['c01_build:accepted', 'c01_build:rejected', 'c01_restart:accepted', 'c01_restart:dimensions', 'c01_restart:range', 'c01_strategy:accepted'],
    'C02': ['c02_options:built'],
    'C03': ['c03_counts:end', 'c03_counts:terminated', 'c03_run:end'],
    'C04': ['c04_best:data', 'c04_best:improved', 'c04_best:kept'],
    'C05': ['c05_rank:end'],
    'C06': ['c06_nan:clean', 'c06_nan:nan'],
    'C07': ['c07_budget:continues', 'c07_budget:stopped', 'c07_run:end'],
    'C08': ['c08_target:hit', 'c08_target:miss'],
    'C09': ['c09_tolfun:TolFun', 'c09_tolfun:TolFunHist', 'c09_tolfun:none', 'c09_window:fired', 'c09_window:quiet', 'c09_long:fired', 'c09_long:quiet'],
    'C10': ['c10_stagnation:fired', 'c10_stagnation:quiet', 'c10_long:fired', 'c10_long:quiet'],
    'C11': ['c11_tol:fired', 'c11_tol:quiet', 'c11_noeffect:axis', 'c11_noeffect:coord'],
    'C12': ['c12_params:end', 'c12_update:end', 'c12_update:hs=0', 'c12_update:hs=1'],
    'C13': ['c13_cov:decomposed', 'c13_cov:end', 'c13_cov:kept', 'c13_sample:end'],
    'C14': ['c14_resample:end', 'c14_resample:filled', 'c14_resample:resampled', 'c14_bounds:inside', 'c14_bounds:outside', 'c14_box:inside', 'c14_box:outside'],
    'C15': ['c15_parallel:end', 'c15_update:end'],
    'C16': ['c16_seed:end', 'c16_restart:end'],
    'C17': ['c17_scale:end', 'c17_fmin:end', 'c17_invalid:panic'],
    'C18': ['c18_agg:FunTarget', 'c18_agg:InvalidFunctionValue', 'c18_agg:MaxFunctionEvals', 'c18_agg:MaxRuns', 'c18_time:runs', 'c18_time:time'],
    'C19': ['c19_schedule:end', 'c19_schedule:large', 'c19_schedule:small', 'c19_lr_limit:end', 'c19_lr_limit:half', 'c19_no_panic:ran'],
    'C20': ['c20_options:end', 'c20_objective:end', 'c20_runs:later run', 'c20_long:small run', 'c20_long:later run', 'c20_objective:several runs'],
    'C21': ['c21_plot:end', 'c21_plot:recorded', 'c21_plot:skipped', 'c21_run:end', 'c21_run:final point', 'c21_nan:end'],
    'C22': ['c22_next:end', 'c22_next:printed', 'c22_next:silent', 'c22_run:end', 'c22_run:final line', 'c22_same:end'],
    'C25': ['c25_calls:end', 'c25_calls:terminated', 'c25_extremes:continues', 'c25_extremes:terminated', 'c25_infinities:end', 'c25_infinities:stagnation'],
    'C26': ['c26_text:end', 'c26_text:final'],
    'C27': ['c27_restart:end', 'c27_restart:no best', 'c27_restart:several runs'],
    'C28': ['c28_accessors:end', 'c28_created:end', 'c28_interval:end'],
    'C30': ['c30_equivariance:end'],
    'C31': ['c31_observer:end', 'c31_observer:fires', 'c31_observer:quiet'],
    'C29': ['c29_data:end', 'c29_data:several points', 'c29_data:cleared'],
}
