"""python3 as the driver script sees it in C37: runs the repository's main.py on the stand-in for PyTorch, with generated weights."""
import os
import runpy
import sys

import numpy as np

sys.dont_write_bytecode = True
import minitorch as mt  # noqa: E402

torch = mt.install()
seed = int(os.environ.get("VF_NET_SEED", "0"))
np.random.seed(seed % (2 ** 31))
script = sys.argv[1]
sys.path.insert(0, os.path.dirname(script))
sys.argv = sys.argv[1:]


class Checkpoint(dict):
    """Weights for whatever network the configuration describes."""

    def __missing__(self, k):
        if k != "model_state_dict":
            raise KeyError(k)
        import config
        import models.gcn_model as gm
        c = config.get_config("./logs/tsp%s/config.json" % sys.argv[3])
        net = mt.DataParallel(gm.ResidualGatedGCNModel(c, mt.FloatTensor, mt.LongTensor))
        r = np.random.RandomState(seed % (2 ** 31))
        return {k: mt.Tensor(r.uniform(-1, 1, p.a.shape)) for k, p in net.named_parameters()}


def load(path, map_location=None, **k):
    if not str(path).endswith("best_val_checkpoint.tar") or "tsp%s" % sys.argv[3] not in str(path):
        raise FileNotFoundError(2, "No such file or directory", path)
    return Checkpoint()


torch.load = load
runpy.run_path(script, run_name="__main__")
