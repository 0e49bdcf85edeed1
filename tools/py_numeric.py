"""Special functions, Stirling rows and score normalisation through the Python packages."""
import numpy as np
import py_models
from py_models import num, nums


def f32s(s):
    return [float(x) for x in s.split(",")] if s and s != "-" else []


class Runner(object):
    def __init__(self, kv):
        self.f = kv["f"]

    def cmd(self, t, o):
        c = t[0]
        if c == "fn":
            if self.f == "lp":
                import distributions.lp.special as sp
            else:
                import distributions.dbg.special as sp
            fn = getattr(sp, t[1])
            o["f"] = t[1]
            xs = [float(x) for x in t[2:]]
            if self.f == "lp":
                xs = [float(np.float32(x)) for x in xs]
            o["x"] = [[num(x)] for x in xs]
            o["y"] = [num(fn(x)) for x in xs]
        elif c == "stirling":
            import distributions.lp.special as sp
            o["n"] = t[2]
            o["r"] = nums(sp.log_stirling1_row(int(t[2])))
        elif c == "scores":
            s = f32s(t[3] if len(t) > 3 else "")
            o["f"] = t[1]
            if self.f == "lp":
                import distributions.lp.random as r
                s = [float(np.float32(x)) for x in s]
                o["s"] = nums(s)
                v = list(s)
                o["r"] = num(r.log_sum_exp(v))
            else:
                from distributions.util import scores_to_probs
                o["s"] = nums(s)
                if t[2] == "whole":
                    s = [int(x) for x in s]
                v = np.array(s) if t[2] == "aligned" else list(s)
                o["r"] = nums(scores_to_probs(v))
            o["same"] = int(list(v) == s)
        else:
            return False
        return True


if __name__ == "__main__":
    py_models.main(lambda name, kv: Runner(kv))
