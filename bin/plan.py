# per property: scenarios (seeds) of the quick and thorough tiers
def p(q, t, **k):
    return dict(quick=q, thorough=t, **k)
PLAN = {
    "C01": p(1000, 60000),
    "C02": p(800, 50000),
    "C03": p(2500, 200000),
    "C04": p(350, 20000),
    "C05": p(350, 20000),
    "C06": p(500, 30000),
    "C07": p(300, 20000),
    "C08": p(2000, 100000),
    "C09": p(500, 30000),
    "C10": p(450, 30000),
    "C11": p(1600, 100000),
    "C12": p(1600, 100000),
    "C13": p(1800, 100000),
    "C14": p(1800, 100000),
    "C15": p(1800, 100000),
    "C16": p(1800, 100000),
    "C17": p(450, 30000),
    "C18": p(450, 30000),
    "C19": p(1000, 60000),
    "C20": p(700, 40000),
    "C21": p(2000, 100000),
    "C22": p(700, 40000),
    "C23": p(1800, 100000),
    "C24": p(1800, 100000),
    "C25": p(1800, 100000),
    "C26": p(900, 100000),
}
