"""One argument object that is passed again and again with other contents (as control loops and optimisers do)."""
import numpy as np
import torch

from . import gen

KINDS1 = ["t1", "t1_data", "n1", "list", "dfloat", "dnum", "dten", "fresh"]
KINDSB = ["t2", "t2_data", "t2_np", "n2", "dten", "dnum", "fresh", "view"]


class Holder:
    def __init__(self, kind, names, dtype):
        self.kind, self.names, self.dt, self.x = kind, names, gen.DT[dtype], None

    def put(self, R):
        """Write R (B, n) into the held object and return it."""
        R = np.asarray(R, float)
        k, dt = self.kind, self.dt
        V = R[0] if k in ("t1", "t1_data", "n1", "list") else R
        if k == "fresh":
            self.x = None  # freed, so that the next tensor may get the same address
            self.x = torch.tensor(V, dtype=dt)
        elif k == "view":  # another view object of one buffer
            if self.x is None:
                self.base = torch.zeros(V.shape, dtype=dt)
            self.base.copy_(torch.tensor(V, dtype=dt))
            self.x = self.base[:]
        elif k in ("t1", "t2"):
            if self.x is None:
                self.x = torch.tensor(V, dtype=dt)
            else:
                self.x.copy_(torch.tensor(V, dtype=dt))
        elif k in ("t1_data", "t2_data"):
            if self.x is None:
                self.x = torch.tensor(V, dtype=dt)
            else:
                self.x.data.copy_(torch.tensor(V, dtype=dt))
        elif k == "t2_np":  # through shared memory, unseen by the version counter
            if self.x is None:
                self.buf = V.astype(np.float32 if dt == torch.float32 else np.float64)
                self.x = torch.from_numpy(self.buf)
            else:
                self.buf[...] = V
        elif k in ("n1", "n2"):
            if self.x is None:
                self.x = V.copy()
            else:
                self.x[...] = V
        elif k == "list":
            if self.x is None:
                self.x = [float(v) for v in V]
            else:
                for i, v in enumerate(V):
                    self.x[i] = float(v)
        elif k == "dfloat":
            self.x = {} if self.x is None else self.x
            for n, v in zip(self.names, R[0]):
                self.x[n] = float(v)
        elif k == "dnum":
            if self.x is None:
                self.x = {n: R[:, i].copy() for i, n in enumerate(self.names)}
            else:
                for i, n in enumerate(self.names):
                    self.x[n][...] = R[:, i]
        elif k == "dten":
            if self.x is None:
                self.x = {n: torch.tensor(R[:, i], dtype=dt) for i, n in enumerate(self.names)}
            else:
                for i, n in enumerate(self.names):
                    self.x[n].copy_(torch.tensor(R[:, i], dtype=dt))
        else:
            raise AssertionError(k)
        return self.x


def holder(B, i, names, dtype):
    ks = (KINDS1 + KINDSB) if B == 1 else KINDSB
    if not names:
        ks = ["t2", "t2_data", "fresh"]
    return Holder(ks[i % len(ks)], names, dtype)


def sequence(case, nj, B, steps):
    """Configurations of the history: some components repeat, some steps return to an earlier configuration."""
    rng = np.random.RandomState(case["seed"])
    out = []
    for s in range(steps):
        if s and rng.rand() < 0.2:
            out.append(out[rng.randint(len(out))].copy())
            continue
        q = np.round(rng.uniform(-3, 3, (B, nj)), 3)
        if s and nj and rng.rand() < 0.5:  # only one value changes, perhaps in the last row only
            p = out[-1].copy()
            r, c = (B - 1 if rng.rand() < 0.5 else rng.randint(B)), rng.randint(nj)
            p[r, c] = q[r, c] if rng.rand() < 0.6 else p[r, c] + 1e-3
            q = p
        out.append(q)
    return out
