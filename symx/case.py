class Case:
    """One harness: fn(env, **params) is executed symbolically over all its inputs."""

    def __init__(self, name, fn, params=None, bounds="", reach=(), weight=1, path_limit=None):
        self.name = name
        self.fn = fn
        self.params = params or {}
        self.bounds = bounds
        self.reach = tuple(reach)
        self.weight = weight
        self.path_limit = path_limit or (240 if name.startswith(("long", "late")) else 60)
