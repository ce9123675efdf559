from mc import axioms, domain
from mc.checks.d01 import D01


class D02(D01):
    """Priceability and stable priceability verdicts equal the existence of a price system."""

    names = ("priceability", "stable-priceability")
    chunk = 6

    def units(self, tier):
        for u in domain.seq_m(2, 3):
            yield u + ("all", False)
        for u in domain.orbits(3, 2):
            yield u + ("all", False)
        for u in domain.with_relabelings(domain.orbits(3, 3), ("rot",)):
            yield u + ("all", False)
        for u in domain.orbits(4, 2):
            yield u + ("all", False)
        for u in domain.orbits(4, 3):
            yield u + ("all", False)
        for u in domain.orbits(3, 4, empty=False):
            yield u + ("all", False)
        for u in domain.weighted(domain.orbits(2, 2), (1, 2, "1/2")):
            yield u + ("all", False)
        for u in domain.weighted(domain.orbits(3, 2), (1, 3, "1/2")):
            yield u + ("all", False)
        for u in domain.weighted(domain.orbits(3, 3, empty=False), (1, 2)):
            yield u + ("all", False)
        for u in domain.partylists(2, 3, 3, 4):
            yield u + ("all", False)
        for u in domain.staircase(5, 4, (1, 3)):
            yield u + ("all", False)
        for u in domain.staircase(6, 5, (2, 4), step=2):
            yield u + ("all", False)
        if tier == "thorough":
            for u in domain.staircase(6, 6, (1, 3)):
                yield u + ("all", False)
            for u in domain.orbits(4, 4, empty=False):
                yield u + ("all", False)
            for u in domain.orbits(5, 3, empty=False):
                yield u + ("all", False)
            for u in domain.weighted(domain.orbits(4, 3, empty=False), (1, 3)):
                yield u + ("all", False)

    def bounds(self, tier):
        return (
            "ordered profiles m<=2 n<=3; up to renaming m=3 n<=4, m=4 n<=3"
            + ("; m=4 n=4, m=5 n=3" if tier == "thorough" else "")
            + "; party lists; cyclic intervals m=5 n=4, m=6 n=5; weights over {1,2,3,1/2} for n<=3; every nonempty committee of every size"
        )

    def algorithms(self, unit, name):
        return ("gurobi", "fastest") if unit[0] <= 2 else ("gurobi",)


CHECK = D02()
