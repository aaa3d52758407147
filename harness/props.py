"""Which scenario families and which clauses of the specification decide which property."""

ALWAYS = ["raised", "uninterpretable", r"inv\.wellformed"]
ASSUMPTIONS = ["distances are positive and no road leads from a place to itself",
               "frequencies are compared within 6.5 standard deviations plus 2"]

# fams: family -> (number of scenarios quick, thorough); clauses: regular expressions of clause names
PROPS = {
    "K01": dict(fams={"kernel": (100, 2500), "camps": (30, 800), "sinks": (40, 800), "closetravel": (50, 1200), "netops": (20, 400), "mc_kernel": (60, 1200)},
                clauses=[r"inv\..*", r"evolve\.(people|counts|travel|depart|roads)", r"enter\..*", r"clear\..*", r"frame\.(people|counts)"]),
    "K02": dict(fams={"travel": (140, 3000), "kernel": (40, 1000), "bulk": (24, 400), "mc_kernel": (100, 2000)},
                clauses=[r"evolve\.(travel|depart|clocks|dtrav|counts|cum)", r"bulk\.(speed|where)"]),
    "K03": dict(fams={"leave": (140, 3000), "bulk": (50, 800), "travel": (30, 600)},
                clauses=[r"evolve\.(travel|depart|counts)", r"bulk\.(leave|where)", "chance"]),
    "K04": dict(fams={"camps": (200, 4000), "mc_capmult": (84, 84)},
                clauses=[r"evolve\.(travel|depart|counts)", "capmult"]),
    "K05": dict(fams={"sinks": (160, 3000), "bulk": (50, 800), "mc_kernel": (60, 1200)},
                clauses=[r"evolve\.(travel|depart|people|counts|clocks|arrivals)", r"bulk\.sink", r"inv\..*", r"frame\.people", r"clear\..*"]),
    "K06": dict(fams={"travel": (100, 2500), "camps": (50, 1000), "kernel": (50, 1000)},
                clauses=[r"evolve\.(time|clocks|dtrav|arrivals|travel)", r"frame\.(time|stats)"]),
    "R01": dict(fams={"aware": (110, 2500), "routes": (50, 1000), "bulk": (30, 400), "mc_routes": (110, 4000)},
                clauses=[r"routes\.set", r"bulk\.(route|where)", r"evolve\.(depart|travel)"]),
    "R02": dict(fams={"routes": (200, 4000), "mc_capmult": (84, 84)}, clauses=[r"routes\.weight", "capmult"]),
    "R03": dict(fams={"bulk": (130, 2500), "kernel": (40, 1000)}, clauses=[r"bulk\.(route|where)", r"evolve\.(depart|travel)"]),
    "R04": dict(fams={"fixed": (150, 3000)}, clauses=[r"fixed\..*", r"bulk\.(route|where)", r"evolve\.(depart|travel|score)"]),
    "R05": dict(fams={"routes": (120, 2500), "kernel": (40, 1000), "leave": (40, 800)}, clauses=[r"evolve\.score", "decay"]),
    "N01": dict(fams={"netops": (160, 4000), "closetravel": (40, 800), "mc_roads": (1000, 3000)},
                clauses=[r"net\..*", r"frame\..*", r"link\..*", r"inv\.(closedflag|roadcount|names)", "graph", r"evolve\.roads"]),
    "N02": dict(fams={"schedule": (200, 4500), "mc_schedule": (150, 4000)}, clauses=[r"net\..*", r"frame\..*", r"inv\.closedflag", r"evolve\.(roads|counts|travel)"]),
    "N03": dict(fams={"closetravel": (220, 4500), "mc_kernel": (100, 2000)}, clauses=[r"evolve\..*", r"net\..*", r"inv\..*", r"frame\.people"]),
    "L01": dict(fams={"kinds": (200, 4500), "schedule": (20, 400), "mc_kinds": (1000, 1000)},
                clauses=[r"loc\..*", r"net\.(kind|onlykinds)", r"frame\.(kind|locs|size|attrs)", "numidps", "campnames", r"evolve\.kind"]),
    "L02": dict(fams={"timeline": (160, 3500), "mc_timeline": (110, 2500)},
                clauses=[r"day\..*", r"frame\..*", r"input\.(changes|table)", r"evolve\.(score|weights)", "notrefused"]),
    "S01": dict(fams={"arrivals": (150, 3000), "mc_debt": (110, 2500)},
                clauses=[r"spawn\.(due|owed|total|capacity|people|counts)", r"init\.number", r"frame\.(locs|kind|attrs|time|roads|stats)", "notrefused"]),
    "S02": dict(fams={"weights": (110, 2000), "arrivals": (50, 1000)},
                clauses=[r"pick\..*", r"spawn\.(weights|places)", r"net\.weights", r"evolve\.weights", r"loc\.weights", r"day\.weights", r"frame\.weights", "notrefused"]),
    "S03": dict(fams={"driven": (150, 3000), "arrivals": (30, 600)},
                clauses=[r"spawn\..*", r"agents\.(population|counts)", r"enter\.population", r"frame\.(locs|kind|attrs|time|roads|stats)"]),
    "S04": dict(fams={"initial": (130, 2500), "weights": (30, 500), "driven": (30, 500)},
                clauses=[r"init\..*", r"agents\..*", r"spawn\.(attributes|people)", r"frame\..*"]),
    "D01": dict(fams={"data": (300, 6000), "correct": (80, 1500), "arrivals": (20, 300), "mc_interp": (200, 4000)}, clauses=[r"data\..*"]),
    "D02": dict(fams={"correct": (300, 6000)}, clauses=[r"l1\..*", r"data\.(field|kept|diff|max|interpolated)", "notrefused"]),
    "I01": dict(fams={"input": (240, 5000), "timeline": (20, 300)}, clauses=[r"input\..*", r"loc\..*", r"inv\..*"]),
    "G01": dict(fams={"settings": (400, 8000), "mc_settings": (80, 80)}, clauses=[r"settings\..*"]),
    "O01": dict(fams={"logs": (160, 3000)}, clauses=[r"log\.(people|header|rows|append|off|request)", r"evolve\.(hops|dtrav)"]),
    "O02": dict(fams={"logs": (140, 3000)}, clauses=[r"log\.(links|linkheader|append|off|request)", r"evolve\.(cum|cumby)", r"net\.roads", r"frame\.roads"]),
    "E01": dict(fams={"metrics": (160, 3000)}, clauses=[r"metric\..*"]),
    "M01": dict(fams={"par": (102, 1700)}, clauses=[r"par\..*", r"inv\..*", r"enter\..*", r"clear\..*", r"frame\..*", r"net\..*", r"spawn\..*", r"init\..*", r"log\..*", "numidps", r"evolve\.(counts|cum|people|roads|arrivals|kind)"]),
    "M02": dict(fams={"parscore": (40, 700), "par": (68, 1200)}, clauses=[r"evolve\..*", r"fixed\..*", r"par\.(scores|network|weights)"]),
    "C01": dict(fams={"couple": (90, 2500), "couplepair": (16, 400), "couplepar": (10, 300)}, clauses=[r"couple\..*", r"inv\..*", r"par\.(synced|counts|population|total|local)"]),
    "P01": dict(fams={"run": (90, 2000), "runpar": (8, 200)}, clauses=[r"run\..*", r"frame\..*", r"inv\..*", r"par\.(synced|counts|population|total)"]),
    "F01": dict(fams={"floods": (100, 2000), "routes": (60, 1000), "leave": (40, 800)},
                clauses=[r"day\..*", r"routes\.weight", "chance", r"evolve\.(score|depart|travel)", r"spawn\.(number|places)"]),
}

NOTE = ("Bounded: every recorded step of the scenarios (random inputs over the stated families, seeded) is decided by TLC against the "
        "specification; nothing is claimed for inputs outside the families. Trusts TLC, the exact-arithmetic override and the state projection.")
NOT_APPLICABLE = {}
