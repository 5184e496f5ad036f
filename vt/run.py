"""One exploration: a harness, its options and its time budgets."""


class Run:
    def __init__(self, harness, opts=None, quick=120, thorough=600, labels=("end",), defs=("-DNDEBUG",), env=None, name=None,
                 thorough_opts=None, quick_only=False, thorough_only=False, native_timeout=60):
        self.harness, self.opts, self.quick, self.thorough = harness, dict(opts or {}), quick, thorough
        self.labels, self.defs, self.env = labels, defs, dict(env or {})
        self.name = name or harness.split(".")[0] + "".join("_%s-%s" % kv for kv in sorted(self.opts.items()))
        self.thorough_opts = dict(thorough_opts or {})
        self.quick_only, self.thorough_only = quick_only, thorough_only
        self.native_timeout = native_timeout
