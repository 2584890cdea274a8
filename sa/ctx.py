"""One object bundling the analyses a rule needs (built lazily)."""
from .repo import Repo
from .typed import Types
from .util import CallResolver
from .cfg import Flow
from .vals import Vals


class Ctx:
    def __init__(self, repo=None):
        self.repo = repo or Repo()
        self._c = {}

    def _lazy(self, k, fn):
        if k not in self._c:
            self._c[k] = fn()
        return self._c[k]

    @property
    def types(self):
        return self._lazy("types", lambda: Types(self.repo))

    @property
    def cr(self):
        return self._lazy("cr", lambda: CallResolver(self.repo, self.types))

    @property
    def flow(self):
        return self._lazy("flow", lambda: Flow(self.repo, self.cr))

    @property
    def vals(self):
        return self._lazy("vals", lambda: Vals(self.repo, self.cr))
