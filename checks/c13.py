"""C13: rules the mapper returns, against the meaning of a rule in spec/Mapper.tla."""
import mapdrive as md, mapgen as mg


def run(ck):
    if ck.thorough:
        md.check(ck, 1200, mg.MODES, n_mut=0, n_rand=0, pc_p=.4)
    else:
        md.check(ck, 200, mg.MODES, n_mut=0, n_rand=0, pc_p=.4)
