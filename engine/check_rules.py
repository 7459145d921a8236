"""which module decides which property"""
RULES = {"C01": "ring", "C02": "ring", "C03": "ring", "W01": "cmds", "W02": "wire", "W03": "chan", "W04": "dgram", "W05": "wire", "L01": "shapes", "L02": "shapes", "S01": "subq", "S02": "subq", "S03": "subq", "S04": "subio", "S05": "subio", "S06": "subio", "S07": "subio", "P01": "pubq", "P07": "pubq", "P09": "pubq", "P02": "pubq", "P03": "pubq", "P06": "pubq", "P04": "pubq", "P05": "pubq", "P08": "pubq", "T01": "times", "T02": "times", "K01": "conns", "K02": "conns", "K03": "conns", "K04": "conns", "A01": "life", "A02": "order", "A03": "life", "A04": "life", "A05": "codes", "A06": "meet", "M01": "mem", "M02": "mem", "M03": "mem", "M04": "mem", "T03": "diag", "G01": "diag", "A07": "cause", "A08": "reent"}
