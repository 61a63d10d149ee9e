"""Recorder handed to every job: counts what was explored and collects violations."""
class Rec:
    LIMIT = 40
    def __init__(self):
        self.violations = []; self.nviol = 0
        self.stats = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0}
        self.samples = []; self.outcomes = {}; self.maxima = {}
    def state(self, n=1): self.stats["states"] += n
    def trans(self, n=1): self.stats["transitions"] += n
    def trace(self, n=1): self.stats["traces_validated_against_impl"] += n
    def count(self, k, n=1): self.stats[k] = self.stats.get(k, 0) + n
    def sample(self, s):
        if len(self.samples) < 4: self.samples.append(s)
    def outcome(self, k): self.outcomes[str(k)] = self.outcomes.get(str(k), 0) + 1
    def maximum(self, k, v):
        v = float(v)
        if v == v: self.maxima[k] = max(self.maxima.get(k, 0.0), v)
    def bad(self, key, detail=None):
        self.nviol += 1
        if len(self.violations) < self.LIMIT: self.violations.append({"key": key, "detail": detail})
    def check(self, cond, key, detail=None):
        if not cond: self.bad(key, detail() if callable(detail) else detail)
        return bool(cond)
    def close(self, got, want, tol, key, detail=None, scale=None, metric=None):
        """|got-want| <= tol*max(1, scale) elementwise maximum; NaN counts as different."""
        import numpy as np
        got = np.asarray(got); want = np.asarray(want)
        if got.shape != want.shape:
            self.bad(key, {"shape": [list(got.shape), list(want.shape)], "what": detail}); return False
        if got.size == 0: return True
        err = float(np.max(np.abs(got - want)))
        s = scale if scale is not None else max(1.0, float(np.max(np.abs(want))))
        if metric: self.maximum(metric, err / s)
        if not err <= tol * s:
            i = np.unravel_index(int(np.argmax(np.abs(got - want))), got.shape)
            self.bad(key, {"err": err, "scale": s, "tol": tol, "at": [int(a) for a in i],
                           "got": str(got[i]), "want": str(want[i]),
                           "what": detail() if callable(detail) else detail})
            return False
        return True
    def result(self):
        return {"violations": self.violations, "nviol": self.nviol, "stats": self.stats,
                "samples": self.samples, "outcomes": self.outcomes, "maxima": self.maxima}
