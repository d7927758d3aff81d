"""C14: whether the mapper finds a rule, against exhaustive enumeration in spec/Mapper.tla."""
import mapdrive as md, mapgen as mg


def run(ck):
    if ck.thorough:
        md.check(ck, 800, mg.MODES, n_mut=0, n_rand=0, pc_p=.3)
    else:
        md.check(ck, 160, mg.MODES, n_mut=0, n_rand=0, pc_p=.25)
