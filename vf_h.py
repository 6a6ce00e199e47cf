import os
V = os.path.dirname(os.path.abspath(__file__))

class H:
    """One harness run: a C file plus defines."""
    def __init__(self, file, defs=None, tdefs=None, libdefs=(), time=None, ttime=None, name=None, samples=24, cover=(), thorough_only=False, note=None, mem=None, maxinst=None, rlimit=None):
        self.file = file; self.qdefs = defs or {}; self.tdefs = dict(self.qdefs, **(tdefs or {})); self.libdefs = tuple(libdefs); self.time = time; self.ttime = ttime
        self.name = name or os.path.splitext(file)[0]; self.samples = samples; self.cover = cover; self.thorough_only = thorough_only; self.note = note; self.mem = mem; self.maxinst = maxinst; self.rlimit = rlimit
    def prep(self, tier, i):
        self.path = os.path.join(V, 'harness', self.file); d = self.qdefs if tier == 'quick' else self.tdefs
        self.bounds = d; self.defs = ['-D%s=%s' % kv for kv in d.items()]; self.tag = '%02d-%s' % (i, self.name)

