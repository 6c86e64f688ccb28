"""Controlled environment: the random numbers drawn by the (scripted) code under test are
answered by the explorer.  TorchDispatchMode also sees the operators issued by TorchScript."""
import torch
from torch.utils._python_dispatch import TorchDispatchMode

NAMES = {"aten::rand", "aten::randn", "aten::randperm", "aten::randint", "aten::randint.low", "aten::rand_like",
         "aten::randn_like", "aten::uniform_", "aten::bernoulli", "aten::bernoulli_.float", "aten::multinomial", "aten::normal_",
         "aten::randint.generator", "aten::rand.generator", "aten::randperm.generator"}


class RandEnv(TorchDispatchMode):
    """answer(k, name, out) -> tensor of the same shape or None (keep the drawn value)"""

    def __init__(self, answer):
        super().__init__()
        self.answer = answer
        self.k = 0
        self.log = []

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        n = func.name()
        if n in NAMES:
            self.log.append((n, tuple(out.shape)))
            a = self.answer(self.k, n, out)
            self.k += 1
            if a is not None:
                a = torch.as_tensor(a, dtype=out.dtype).reshape(out.shape)
                if n.endswith("_"):
                    out.copy_(a)
                else:
                    out = a
        return out
