"""setup: checks that the interpreter and the code under test are usable, and the reference against first principles."""
import numpy as np


def main():
    from . import core, ref
    core.load_blueqat()
    from blueqat import Circuit
    assert np.allclose(Circuit().h[0].run(), [ref.S2, ref.S2])
    for name, (k, n, f) in ref.GATES.items():
        m = f(*([0.3, 0.7, -1.1][:n]))
        assert np.allclose(m @ m.conj().T, np.eye(2 ** k)), name
    v = ref.run([("x", (), 0), ("cx", (), (0, 2))], 3)
    assert v[5] == 1
    print("selftest ok")
    return 0
