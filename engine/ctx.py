"""Facts about abstract inputs of the current case: rewrite rules for the
normal form and the matching value generators for the sampler."""


class Ctx:
    def __init__(self):
        self.reset()

    def reset(self):
        self.rules = []
        self.fixers = []
        self._keys = set()
        self.frames = {}
        self.ghosts = []
        self.ghost_env = {}
        self.gdefs = {}
        self.scale = None       # magnitude against which the current result's rounding is judged

    def add(self, key, rules=(), fixer=None):
        if key in self._keys:
            return
        self._keys.add(key)
        self.rules.extend(rules)
        if fixer is not None:
            self.fixers.append(fixer)

    def fix(self, env):
        for f in self.fixers:
            f(env)
        return env


CTX = Ctx()
