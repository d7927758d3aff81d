"""C16: rules written out and read back."""
import mapdrive as md, mapgen as mg


def run(ck):
    m = [(True, True, 'OneHot')]
    if ck.thorough:
        md.check(ck, 1200, m, n_mut=4, n_rand=4, pc_p=.1, chunk=50)
    else:
        md.check(ck, 220, m, n_mut=2, n_rand=3, pc_p=.1, chunk=40)
