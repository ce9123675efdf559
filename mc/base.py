"""Common base of all checks."""

from mc import domain


class Check:
    level = "model_checking"
    solver = False  # does the check use ILP/CP solvers?
    chunk = 40
    rule = (
        "one evaluation = one call into the library compared with the oracle; distinct_nontrivial"
        " counts distinct observed (configuration, outcome) classes"
    )
    assumptions = []

    def units(self, tier):
        raise NotImplementedError

    def bounds(self, tier):
        raise NotImplementedError

    def run(self, unit, ctx):
        raise NotImplementedError

    def show(self, unit):
        return domain.describe(unit)

    def unit_size(self, unit):
        return domain.size_key(unit)
