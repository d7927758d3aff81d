"""C15: the rule verifier on found, changed and random rules, against spec/Mapper.tla."""
import mapdrive as md, mapgen as mg


def run(ck):
    m = [(True, True, 'OneHot')]
    if ck.thorough:
        md.check(ck, 1200, m, n_mut=6, n_rand=4, pc_p=.2)
    else:
        md.check(ck, 220, m, n_mut=4, n_rand=3, pc_p=.2)
