"""The properties' jobs: (seconds, entry, parameters) for the symbolic executor."""

# Hardforks.
FRONTIER, HOMESTEAD, TANGERINE, SPURIOUS, BYZANTIUM, PETERSBURG, ISTANBUL = range(7)
BERLIN, LONDON, MERGE, SHANGHAI, CANCUN, PRAGUE, OSAKA, AMSTERDAM = range(7, 15)

# Flags of the entries, see harness/src/entries.rs.
CONST, STATIC, INSPECT, DB, MULTI, NOOPT, ENV, CODE, RET, MEM, STATEGAS, PLENTY, FEW, CHILD, PRICES, LIMIT, REUSE, FREE, ANYPRICES, END, MIX = (1 << i for i in range(21))

WORDS = list(range(0x01, 0x0c)) + list(range(0x10, 0x1f))
STACKOPS = [0x50, 0x5f] + list(range(0x60, 0xa0))
ENVOPS = [0x30, 0x32, 0x33, 0x34, 0x35, 0x36, 0x38, 0x3a, 0x3d, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47,
          0x48, 0x49, 0x4a, 0x4b]
COPYOPS = [0x37, 0x39, 0x3c, 0x3e]
STATEOPS = [0x31, 0x3b, 0x3c, 0x3f, 0x54, 0x55, 0x5c, 0x5d, 0xff]
LOGS = [0xa0, 0xa1, 0xa2, 0xa3, 0xa4]
CALLS = [0xf1, 0xf2, 0xf4, 0xfa]
CREATES = [0xf0, 0xf5]
HEAVY = set(CALLS + CREATES)


def op1(spec, ops, mode=0, flags=0, secs=60):
    return [(secs, "h_op1", (spec, o, o, mode, flags)) for o in ops]


def words(tier):
    j = op1(OSAKA, WORDS) + op1(OSAKA, [0x20], 1, MEM)
    j += op1(OSAKA, WORDS, 0, INSPECT | PLENTY)
    j += op1(OSAKA, STACKOPS, 0, PLENTY)
    # Two in a row, the second on the first's result or on shuffled words.
    j += [(40, "h_seq", (OSAKA, PLENTY, 3, 0, i, 2, 0, 1)) for i in range(26)]
    j += [(40, "h_seq", (OSAKA, PLENTY, 3, 0, i, 2, 1, 0)) for i in range(9)]
    j += [(40, "h_seq", (OSAKA, PLENTY, 4, 0, i, 3, 1, 1, 1)) for i in range(9)]
    if tier == "thorough":
        j += [(200, "h_seq", (OSAKA, PLENTY, 3, 0, i, 2, 0, 0)) for i in range(26)]
        j += [(200, "h_seq", (OSAKA, PLENTY, 3, 0, i, 3, 1, 0, 1)) for i in range(9)]
        j += [(200, "h_seq", (OSAKA, PLENTY, 6, 0, i, 4, 1, 1, 1, 1)) for i in range(9)]
        j += op1(OSAKA, STACKOPS, 0, INSPECT)
    return j


HARD_OPS = (0x04, 0x05, 0x06, 0x07, 0x08, 0x09)
HARD = (1, 3, 4, 5, 6, 7, 8, 9)  # multiplication, division, powers (indices in class 0)


def shapes(mask, *sh):
    for k, x in enumerate(sh):
        mask |= x << (8 + 4 * k)
    return mask


def consts(tier):
    easy = [i for i in range(26) if i not in HARD]
    j = op1(OSAKA, [o for o in WORDS if o not in (2, 4, 5, 6, 7, 8, 9, 10)], 0, CONST)
    # Some operands constants, the others not.
    for mask in (1, 2, 3):
        j += [(30, "h_seq", (OSAKA, PLENTY, 2, mask, i, 1, 0)) for i in easy]
    for mask in (1, 2):
        j += [(30, "h_seq", (OSAKA, PLENTY, 2, shapes(mask, *sh), i, 1, 0)) for i in HARD if i not in (7, 8)
              for sh in (((5, 0), (6, 0), (2, 0)) if mask == 1 else ((0, 5), (0, 6), (0, 2))) if i != 9 or sh[1] < 5]
        j += [(15, "h_seq", (OSAKA, PLENTY, 2, mask, i, 1, 0)) for i in (1, 3, 5, 9)]
    j += [(15, "h_seq", (OSAKA, PLENTY, 2, shapes(2, 2, 5), 9, 1, 0)), (15, "h_seq", (OSAKA, PLENTY, 2, shapes(2, 0, 5), 9, 1, 0))]
    for i in HARD:
        for sh in ((1, 1), (2, 2), (1, 4), (5, 5)):
            if i not in (7, 8):
                if sh == (1, 4) and i in (3, 4):
                    sh = (4, 1)
                j.append((30, "h_seq", (OSAKA, PLENTY, 2, shapes(3, *sh), i, 1, 0)))
            else:
                for mask in (3, 5, 6, 7):
                    if sh != (5, 5):
                        j.append((30, "h_seq", (OSAKA, PLENTY, 3, shapes(mask, *sh, sh[0]), i, 1, 0)))
    j += [(20, "h_seq", (OSAKA, PLENTY, 2, shapes(3, 0, 1), i, 3, 1, 3, 1)) for i in range(9)]
    j += op1(OSAKA, [0x20, 0x35, 0x51, 0x52, 0x53, 0x5e, 0xf3, 0xfd, 0x54, 0x55], 0, CONST | MEM)
    if tier == "thorough":
        for mask in (7, 3, 5, 6):
            j += [(200, "h_seq", (OSAKA, PLENTY, 3, mask, i, 2, 0, 0)) for i in range(26)]
        j += [(100, "h_seq", (OSAKA, PLENTY, 3, shapes(m, 5, 5, 5), i, 1, 0)) for m in (3, 5, 6, 7) for i in HARD]
    return j


def gas(tier):
    j = op1(OSAKA, WORDS, 0, 0, 20) + op1(OSAKA, [0x5a, 0x59, 0x58, 0x5b, 0x00, 0xfe])
    j += [(20, "h_seq", (OSAKA, 0, 2, 0, i, 2, 4, 6)) for i in range(23)]
    j += [(20, "h_seq", (OSAKA, 0, 2, 0, i, 3, 6, 6, 6)) for i in range(9)]
    j += [(25, "h_cfg", (OSAKA, 0, 2, 2, sh, 0)) for sh in range(12)]
    j += op1(OSAKA, [0x20, 0x37, 0x39, 0x3e, 0x51, 0x52, 0x53, 0x5e, 0xf3, 0xfd, 0xa0, 0xa2], 0, 0)
    j += op1(OSAKA, [0x31, 0x3b, 0x3c, 0x3f, 0x54, 0x55, 0x5c, 0x5d, 0xff, 0x40], 0, 0)
    j += op1(OSAKA, [0x20, 0x51, 0x54, 0x0a, 0xf1, 0xf0], 3, END)
    j += [(30, "h_tmpl", (OSAKA, 0, t, 0)) for t in (3, 6, 8)]
    # Costs known when compiling.
    j += [(30, "h_seq", (OSAKA, 0, 2, shapes(1, x, 0), 9, 1, 0)) for x in (1, 2, 5)] + [(30, "h_seq", (s, 0, 2, shapes(1, 1, 0), 9, 1, 0)) for s in (FRONTIER, SPURIOUS)]
    j += [(30, "h_seq", (OSAKA, 0, 2, shapes(3, x, 1), 9, 1, 0)) for x in (1, 5)]
    j += [(30, "h_seq", (OSAKA, 0, 2, shapes(2, x, 5), 9, 1, 0)) for x in (0, 1)]
    j += op1(OSAKA, [0x20, 0x37, 0x39, 0x3e, 0x51, 0x52, 0x53, 0x5e, 0xa1, 0x31, 0x3b, 0x54, 0x55, 0x5c, 0x5d], 0, CONST, 30)
    j += [(20, "h_seq", (s, 0, 2, 0, i, 2, 5, 6)) for s in (ISTANBUL, OSAKA) for i in (0, 5, 6)]
    # Where the costs changed.
    for s in (FRONTIER, TANGERINE, SPURIOUS, BYZANTIUM, PETERSBURG, ISTANBUL, BERLIN, LONDON):
        j += op1(s, [0x0a, 0x31, 0x3b, 0x3f, 0x54, 0x55, 0xff], 0, 0)
    j += op1(AMSTERDAM, [0x55, 0xff, 0x54, 0x31], 0, STATEGAS)
    # Prices other than the fork's.
    sized = [0x20, 0x37, 0x39, 0x3e, 0x51, 0x52, 0x53, 0x5e, 0xf3, 0xfd, 0xa0, 0xa2]
    priced = [0x31, 0x3b, 0x3c, 0x3f, 0x54, 0x55, 0xff]
    j += op1(OSAKA, sized, 3, PRICES, 40) + op1(OSAKA, sized, 3, PRICES | CONST, 40)
    j += op1(OSAKA, [0x0a] + priced, 0, PRICES, 40) + op1(OSAKA, [0x31, 0x3b, 0x54, 0x55, 0xff], 0, PRICES | CONST, 40)
    j += [(40, "h_seq", (OSAKA, PRICES, 2, shapes(1, x, 0), 9, 1, 0)) for x in (1, 2)] + [(40, "h_seq", (OSAKA, PRICES, 2, shapes(3, 1, 0), 9, 1, 0))]
    j += op1(OSAKA, CALLS + CREATES, 3, PRICES | PLENTY, 40) + op1(FRONTIER, [0x0a, 0x55, 0xff], 0, PRICES, 40)
    if tier == "thorough":
        j += [(200, "h_seq", (OSAKA, 0, 2, 0, i, 3, 4, 4, 6)) for i in range(23)]
        j += [(200, "h_cfg", (OSAKA, 0, 3, 2, sh, 1)) for sh in range(20)]
        j += op1(AMSTERDAM, CALLS + CREATES, 3, STATEGAS, 200)
        for s in range(15):
            j += op1(s, STATEOPS, 0, 0, 100)
        j += op1(OSAKA, sized, 3, ANYPRICES, 300) + op1(OSAKA, sized, 3, ANYPRICES | CONST, 300)
        j += op1(OSAKA, [0x0a] + priced, 0, ANYPRICES, 300) + op1(OSAKA, priced, 0, ANYPRICES | CONST, 300)
        j += op1(OSAKA, CALLS + CREATES, 3, ANYPRICES | PLENTY, 300)
    return j


def stack(tier):
    j = [(60, "h_stack", (OSAKA, f, m, 2)) for f, m in ((0, 0), (0, 2), (INSPECT, 0), (INSPECT, 1), (INSPECT, 2), (INSPECT, 3))]
    j += [(60, "h_stack", (OSAKA, 0, 1, 1))]
    j += [(30, "h_seq", (OSAKA, PLENTY, n, 0, i, 2, 1, 1)) for n in (0, 1, 2) for i in range(9)]
    j += op1(OSAKA, range(0x80, 0xa0), 0, PLENTY)
    j += op1(AMSTERDAM, [0xe6, 0xe7, 0xe8], 0, PLENTY)
    j += [(60, "h_under", (OSAKA, PLENTY, lo, lo + 31)) for lo in range(0, 256, 32)]
    j += [(40, "h_tmpl", (OSAKA, PLENTY, 8, 0))]
    if tier == "thorough":
        j += [(300, "h_stack", (OSAKA, f, m, 3)) for f, m in ((0, 0), (0, 2), (INSPECT, 0), (INSPECT, 1), (INSPECT, 3))]
        j += [(300, "h_stack", (OSAKA, 0, 1, 2)), (300, "h_stack", (OSAKA, 0, 3, 1))]
        j += [(100, "h_under", (s, PLENTY, 0, 255)) for s in (FRONTIER, BERLIN, AMSTERDAM)]
    return j


def memory(tier):
    ops = [0x20, 0x37, 0x39, 0x3e, 0x51, 0x52, 0x53, 0x5e]
    j = op1(OSAKA, ops, 1, MEM | RET | PLENTY, 60)
    j += op1(OSAKA, ops, 0, MEM | RET | CONST, 30)
    j += [(40, "h_mem", (OSAKA, PLENTY, 2, i, 0)) for i in range(9)]
    j += [(20, "h_mem", (OSAKA, PLENTY, 1, i, 1)) for i in range(9)]
    j += op1(OSAKA, [0x51, 0x52, 0x53], 2, MEM, 40)
    j += op1(OSAKA, [0x59], 0, MEM)
    j += [(40, "h_mem", (OSAKA, PLENTY, 3, i, 2)) for i in range(9)]
    j += op1(OSAKA, ops, 0, MEM | RET | MIX | PLENTY, 40) + op1(OSAKA, [0x20, 0x51, 0x53], 1, MEM | MIX | PLENTY, 40)
    j += op1(OSAKA, ops, 0, MEM | RET | CHILD, 30) + op1(OSAKA, ops, 0, CONST | RET | CHILD, 30)
    j += [(40, "h_mem", (OSAKA, PLENTY | CHILD, 2, i, 0)) for i in (0, 1, 3, 4)]
    if tier == "thorough":
        j += [(400, "h_mem", (OSAKA, PLENTY, 3, i, 0)) for i in range(9)]
        j += [(400, "h_mem", (OSAKA, PLENTY, 2, i, 1)) for i in range(9)]
        j += op1(OSAKA, ops, 2, MEM | RET, 300)
    return j


def control(tier):
    j = [(40, "h_tmpl", (OSAKA, PLENTY, t, s)) for t, s in [(x, 0) for x in range(11)] + [(2, 1)]]
    j += [(25, "h_cfg", (OSAKA, PLENTY, 3, 0, sh, 0)) for sh in range(9)]
    j += [(25, "h_cfg", (OSAKA, PLENTY, 2, 1, sh, 3)) for sh in range(48)]
    j += op1(OSAKA, [0x56, 0x57, 0x00, 0xfe, 0x5b], 0, 0)
    if tier == "thorough":
        j += [(200, "h_cfg", (OSAKA, PLENTY, 3, 1, sh, 1)) for sh in range(30)]
        j += [(200, "h_cfg", (OSAKA, PLENTY, 3, 3, sh, 2)) for sh in range(20)]
        j += [(200, "h_cfg", (OSAKA, PLENTY, 4, 0, sh, 0)) for sh in range(9)]
    return j


def env(tier):
    j = op1(OSAKA, ENVOPS, 0, ENV)
    j += op1(AMSTERDAM, [0x4b], 0, ENV)
    j += op1(OSAKA, ENVOPS, 0, ENV | RET | CODE | PLENTY)
    j += op1(OSAKA, [0x35, 0x49, 0x40], 1, ENV | CONST | PLENTY, 30)
    j += op1(OSAKA, [0x35], 2, ENV | PLENTY, 60)
    j += op1(OSAKA, [0x37, 0x39, 0x3e], 1, ENV | RET | PLENTY, 100)
    j += op1(OSAKA, [0x3c], 0, ENV | CODE | PLENTY, 60)
    j += op1(OSAKA, [0x35, 0x36, 0x37, 0x39, 0x3e, 0x3c], 0, ENV | RET | CODE | PLENTY | CHILD, 40)
    j += op1(OSAKA, [0x35], 1, ENV | CONST | PLENTY | CHILD, 30)
    for s in (FRONTIER, BYZANTIUM, ISTANBUL, LONDON, MERGE, CANCUN):
        j += op1(s, ENVOPS, 0, ENV | PLENTY)
    if tier == "thorough":
        j += op1(OSAKA, [0x37, 0x39, 0x3e, 0x3c], 2, ENV | RET | CODE | PLENTY, 600)
        j += [(200, "h_seq", (OSAKA, ENV, 0, 0, i, 2, 2, 2)) for i in range(20)]
    return j


def state(tier):
    j = op1(OSAKA, STATEOPS + LOGS, 0, STATIC | ENV | CODE, 60)
    j += op1(OSAKA, LOGS, 1, MEM, 30)
    j += op1(OSAKA, LOGS, 0, MEM | CHILD, 30)
    j += op1(OSAKA, [0x54, 0x55, 0x5c, 0x5d, 0xff] + LOGS, 0, CONST | STATIC, 30)
    j += op1(OSAKA, [0x55, 0x5d, 0xa1, 0xa2], 0, MIX | PLENTY, 30)
    j += [(40, "h_seq", (OSAKA, PLENTY | STATIC, 3, 0, i, 2, 5, 5)) for i in range(10)]
    for s in (FRONTIER, HOMESTEAD, TANGERINE, SPURIOUS, BYZANTIUM, PETERSBURG, ISTANBUL, BERLIN, LONDON, CANCUN, AMSTERDAM):
        j += op1(s, [0x31, 0x3b, 0x3f, 0x54, 0x55, 0xff, 0xa1], 0, STATIC, 30)
    j += op1(AMSTERDAM, [0x55, 0xff], 0, STATEGAS | STATIC, 30)
    if tier == "thorough":
        j += [(300, "h_seq", (OSAKA, PLENTY | STATIC, 4, 0, i, 3, 5, 5, 5)) for i in range(10)]
        j += [(200, "h_seq", (s, STATIC, 3, 0, i, 2, 5, 5)) for s in (BERLIN, AMSTERDAM) for i in range(10)]
    return j


def calls(tier):
    ops = CALLS + CREATES
    j = [(60, "h_calls", (OSAKA, PLENTY, o, 0, 0)) for o in ops]
    j += [(60, "h_calls", (OSAKA, PLENTY | STATIC | CODE, o, 0, 2)) for o in ops]
    j += [(40, "h_calls", (OSAKA, PLENTY, a, b, m)) for a, b, m in ((0xf1, 0xf0, 2), (0xfa, 0xf4, 6), (0xf5, 0xf1, 4), (0xf2, 0xfa, 0))]
    j += [(40, "h_calls", (OSAKA, PLENTY, 0xf4, 0, 3)), (40, "h_calls", (OSAKA, PLENTY, 0xf0, 0, 3))]
    j += op1(OSAKA, ops, 3, 0, 60)
    j += op1(OSAKA, ops, 0, PLENTY | CHILD, 50)
    j += [(60, "h_calls", (OSAKA, PLENTY | CHILD, o, 0, 1)) for o in ops]
    for s in (FRONTIER, TANGERINE, SPURIOUS, BERLIN, PRAGUE, AMSTERDAM):
        j += op1(s, CALLS + CREATES, 3, 0, 40)
    j += op1(AMSTERDAM, CALLS + CREATES, 3, STATEGAS | PLENTY, 40)
    j += op1(OSAKA, CALLS + CREATES, 3, END, 40) + op1(OSAKA, CALLS + CREATES, 3, MIX | PLENTY | END, 60)
    if tier == "thorough":
        j += op1(OSAKA, ops, 0, STATIC | CODE, 600)
        j += [(300, "h_calls", (OSAKA, PLENTY, a, b, 7)) for a in ops for b in ops]
        j += [(300, "h_calls", (s, 0, a, 0, 3)) for s in (FRONTIER, BYZANTIUM, BERLIN, AMSTERDAM) for a in ops]
    return j


def output(tier):
    j = op1(OSAKA, [0x00, 0xf3, 0xfd, 0xfe, 0xff], 1, MEM, 60)
    j += op1(OSAKA, [0x00, 0xf3, 0xfd, 0xfe, 0xff], 0, MEM | CONST, 60)
    j += op1(OSAKA, [0xf3, 0xfd], 0, MEM | CONST | INSPECT, 60)
    j += op1(OSAKA, [0xf3, 0xfd, 0x00, 0xff], 0, MEM | INSPECT, 60)
    j += op1(OSAKA, [0xf3, 0xfd], 2, MEM | PLENTY, 120)
    j += op1(OSAKA, [0xf3, 0xfd], 1, MEM | MIX, 100)
    j += op1(OSAKA, [0xf3, 0xfd], 1, MEM | CHILD, 60) + op1(OSAKA, [0xf3, 0xfd], 0, MEM | CHILD | CONST, 60)
    j += [(60, "h_end", (OSAKA, f, o)) for f in (0, CONST, INSPECT, INSPECT | CONST, MULTI) for o in (0x00, 0xf3, 0xfd, 0xfe, 0xff, 0x0c)]
    return j


def forks(tier):
    j = []
    light = [o for o in range(256) if o not in HEAVY]
    for s in range(15):
        j += [(40, "h_op1", (s, lo, lo + 31, 3, PLENTY)) for lo in range(0, 256, 32) if lo not in (96, 128)]
        j += [(40, "h_op1", (s, o, o, 3, PLENTY)) for o in (0x60, 0x7f, 0x80, 0x9f)]
    if tier == "thorough":
        for s in range(15):
            j += op1(s, [o for o in light if o < 0x60 or o >= 0xa0], 3, STATIC, 60)
    return j


def options(tier):
    j = []
    for f in (NOOPT, MULTI, INSPECT, NOOPT | MULTI | INSPECT):
        j += [(20, "h_tmpl", (OSAKA, PLENTY | f, t, 0)) for t in range(10)]
        j += [(20, "h_mem", (OSAKA, PLENTY | f, 1, i, 0)) for i in range(9)]
    j += [(40, "h_dup", (OSAKA, f, t, s)) for f in (0,) for t in (0, 1, 2) for s in ((0, 1, 2) if t == 0 else (255,))]
    j += [(40, "h_dup", (OSAKA, 0, 3, s)) for s in range(4)]
    j += [(45, "h_dse", (OSAKA, PLENTY | f, sh)) for f in (0, INSPECT, NOOPT) for sh in range(9)]
    j += [(20, "h_seq", (OSAKA, PLENTY | INSPECT, 2, 0, i, 2, 6, 6)) for i in range(9)]
    j += [(30, "h_dead", (OSAKA, DB | f, lo, hi)) for f in (0, CONST) for lo, hi in ((1, 7), (8, 31), (32, 0x3f), (0x40, 0x4f), (0x50, 0x5e), (0xf0, 0xff))]
    j += op1(OSAKA, CALLS[:1] + CREATES[:1] + [0x54, 0x55, 0xf3, 0xfd, 0xff, 0xa1], 3, INSPECT | PLENTY, 30)
    # Any budget for folding; gas not metered.
    j += [(20, "h_seq", (OSAKA, LIMIT | PLENTY, 2, shapes(3, 1, 1), i, 3, 1, 3, 1)) for i in (0, 5, 7, 8)]
    j += [(20, "h_seq", (OSAKA, LIMIT | PLENTY, 2, shapes(3, 2, 1), i, 1, 0)) for i in HARD if i not in (7, 8)]
    j += [(20, "h_tmpl", (OSAKA, LIMIT | PLENTY, t, 0)) for t in range(11) if t not in (4, 8)]
    j += [(20, "h_tmpl", (OSAKA, FREE | PLENTY, t, 0)) for t in range(11) if t != 6]
    j += [(20, "h_mem", (OSAKA, FREE | PLENTY, 1, i, 0)) for i in range(9)]
    j += op1(OSAKA, [0x01, 0x05, 0x0a, 0x20, 0x31, 0x52, 0x54, 0x55, 0xa1, 0xf3, 0xff], 3, FREE | PLENTY, 20)
    if tier == "thorough":
        for f in (NOOPT, MULTI, INSPECT, LIMIT):
            j += [(200, "h_cfg", (OSAKA, PLENTY | f, 3, 0, sh, 0)) for sh in range(9)]
            j += [(200, "h_seq", (OSAKA, PLENTY | f, 3, 0, i, 3, 4, 4, 4)) for i in range(23)]
    return j


def total(tier):
    j = [(60, "h_any", (OSAKA, PLENTY, 1, 256)), (60, "h_any", (AMSTERDAM, PLENTY, 1, 256)), (60, "h_any", (FRONTIER, PLENTY, 1, 256))]
    j += [(40, "h_compile", (OSAKA, 0, 2, lo)) for lo in range(0, 256, 16)]
    j += [(40, "h_tail", (s, f | PLENTY, lo, lo + 7)) for s, f in ((OSAKA, INSPECT), (FRONTIER, INSPECT | NOOPT)) for lo in range(0x60, 0x80, 8)]
    j += [(40, "h_compile", (AMSTERDAM, INSPECT, 2, lo)) for lo in (0x50, 0x60, 0xe0, 0xf0)]
    j += [(60, "h_any", (OSAKA, PLENTY, 2, b)) for b in (0x56, 0x57, 0x5f, 0x60, 0x61, 0x80, 0x90)]
    if tier == "thorough":
        j += [(300, "h_any", (OSAKA, PLENTY, 2, b)) for b in range(256)]
        j += [(300, "h_compile", (OSAKA, 0, 3, lo)) for lo in range(0, 256, 2)]
    return j


def faults(tier):
    ops = [0x31, 0x3b, 0x3c, 0x3f, 0x40, 0x47, 0x54, 0x55, 0xff, 0xf1, 0xf2, 0xf4, 0xfa, 0xf0, 0xf5]
    j = op1(OSAKA, ops, 3, DB, 60)
    j += op1(OSAKA, [0x31, 0x3b, 0x3c, 0x3f, 0x40, 0x54, 0x55, 0xff], 3, DB | CONST, 60)
    for s in (FRONTIER, ISTANBUL, BERLIN, AMSTERDAM):
        j += op1(s, ops, 3, DB, 40)
    j += [(60, "h_seq", (OSAKA, DB, 3, 0, i, 2, 5, 5)) for i in range(10)]
    if tier == "thorough":
        j += [(300, "h_seq", (OSAKA, DB, 4, 0, i, 3, 5, 5, 5)) for i in range(10)]
        for s in range(15):
            j += op1(s, ops, 3, DB, 60)
    return j


# The runtime. Kinds of checks, see rt/src/scen.rs.
ID, WAIT, CLEAR, COMP, STAY, STAT, SWITCH, KEPT = (1 << i for i in range(8))
# Options of h_calls.
FAIL, HOT, AOT, STORE, FULL, TIGHT, TWO, LONG, OPTS, BLOCK, TICK = (1 << i for i in range(11))
# Calls: LOOK a lookup, SYNC a blocking request, ASK a request, ...
LOOK, SYNC, ASK, LOOKB, PREP, CLR, CLRA, CLRQ, GET, PAUSE, BATCH = (1 << i for i in range(11))


def rt(kinds, jobs):
    out = []
    for secs, entry, params in jobs:
        params = tuple(params) + (0,) * (9 - len(params))
        out.append((secs, entry, params + (kinds,)))
    return out


def rc(secs, preempt, keys, opts, *clients):
    return (secs, "h_calls", (preempt, keys, opts) + clients)


def identity(tier):
    j = [rc(60, 1, 1, FAIL, 2, LOOK | SYNC, 1, LOOK | SYNC), rc(60, 1, 3, LONG, 2, LOOK | SYNC | LOOKB),
         rc(60, 0, 3, OPTS, 3, LOOK | SYNC | ASK | PREP), rc(60, 1, 2, HOT, 2, LOOK, 1, LOOK | SYNC),
         rc(60, 1, 1, AOT, 2, LOOK | PREP, 1, LOOK), rc(60, 0, 2, OPTS | AOT, 2, LOOK | SYNC | PREP, 1, GET),
         rc(60, 1, 2, 0, 2, SYNC, 1, CLR), rc(60, 1, 2, AOT, 1, BATCH, 1, LOOK), (60, "h_persist", (3, 0)), (60, "h_persist", (4, 1))]
    if tier == "thorough":
        j += [rc(600, 1, 2, TWO, 1, SYNC, 1, SYNC), rc(600, 2, 1, FAIL, 2, LOOK | SYNC | ASK, 1, LOOK | SYNC),
              rc(600, 1, 3, OPTS | FAIL, 2, LOOK | SYNC | PREP, 1, LOOK), rc(600, 1, 2, AOT | OPTS, 2, LOOK | PREP, 1, CLR),
              (600, "h_persist", (5, 0)), rc(600, 1, 3, HOT | LONG, 3, LOOK | SYNC)]
    return rt(ID, j)


def waiting(tier):
    j = [rc(60, 1, 1, 0, 2, SYNC, 2, SYNC), rc(60, 1, 1, FAIL, 2, SYNC, 1, LOOKB), rc(60, 1, 1, 0, 2, SYNC, 1, CLR),
         rc(60, 1, 1, TIGHT, 2, LOOK | SYNC, 1, SYNC), rc(60, 1, 1, BLOCK, 2, LOOK, 1, LOOK),
         rc(60, 1, 1, FULL, 2, SYNC, 1, SYNC), rc(60, 1, 1, 0, 2, SYNC | GET | PAUSE, 1, SYNC),
         rc(60, 1, 1, 0, 4, SYNC | ASK | CLRQ), rc(60, 1, 1, 0, 1, SYNC, 1, SYNC, 1, CLRQ),
         rc(60, 1, 1, AOT, 2, SYNC | PREP, 1, SYNC), rc(60, 1, 1, TIGHT, 1, SYNC, 1, PAUSE | ASK, 1, LOOK),
         rc(60, 2, 1, 0, 1, LOOK, 1, CLR), rc(60, 1, 2, FULL, 2, SYNC, 1, LOOKB)]
    if tier == "thorough":
        j += [rc(600, 2, 1, 0, 1, SYNC, 1, SYNC, 1, CLRQ), rc(600, 1, 3, FULL, 2, SYNC, 1, LOOKB), rc(600, 1, 3, FULL, 2, SYNC, 1, SYNC, 1, SYNC),
              rc(600, 2, 1, FAIL, 2, SYNC | LOOKB, 2, SYNC), rc(600, 1, 2, TWO, 1, SYNC | ASK, 2, SYNC),
              rc(600, 1, 1, AOT, 2, SYNC | PREP, 1, CLRA | CLR, 1, SYNC), rc(600, 2, 1, 0, 4, SYNC | ASK | CLRQ),
              (600, "h_switch", (5, 1))]
    return rt(WAIT, j)


def clearing(tier):
    j = [rc(60, 1, 1, 0, 2, SYNC, 1, CLR), rc(60, 1, 2, 0, 2, SYNC, 1, CLR), rc(60, 1, 1, AOT, 2, SYNC | PREP, 1, CLR),
         rc(60, 1, 1, AOT, 2, SYNC | PREP, 1, CLRA), rc(60, 1, 1, 0, 2, LOOK | SYNC, 1, CLR),
         rc(60, 1, 1, TICK, 3, LOOK, 1, CLR), rc(60, 1, 1, FAIL, 2, SYNC, 1, CLR), rc(60, 1, 1, 0, 2, ASK, 1, CLRA),
         rc(60, 2, 1, 0, 1, ASK, 1, CLR)]
    if tier == "thorough":
        j += [rc(600, 1, 1, FAIL, 2, SYNC | ASK, 1, CLR), rc(600, 2, 1, 0, 2, SYNC | ASK, 1, CLR),
              rc(600, 1, 1, 0, 2, SYNC | ASK, 2, SYNC | ASK, 1, CLR), rc(600, 2, 1, AOT, 1, SYNC | PREP, 1, CLRA),
              rc(600, 1, 1, 0, 2, SYNC | LOOK, 2, CLR)]
    return rt(CLEAR, j)


def admission(tier):
    j = [rc(60, 1, 2, HOT, 2, LOOK, 1, LOOK | SYNC), rc(60, 1, 1, HOT, 3, LOOK, 1, LOOK), rc(60, 0, 1, HOT, 6, LOOK),
         rc(60, 1, 1, HOT | TICK, 3, LOOK, 1, LOOK), rc(60, 1, 3, FULL, 3, ASK), rc(60, 1, 1, 0, 4, SYNC | ASK | CLRQ),
         rc(60, 1, 1, 0, 2, SYNC | ASK, 2, SYNC | ASK), rc(60, 1, 3, LONG, 2, LOOK | SYNC | LOOKB),
         rc(60, 1, 1, FAIL, 3, LOOK | SYNC | ASK), rc(60, 1, 1, AOT, 2, LOOK | PREP, 1, SYNC),
         rc(60, 0, 3, 0, 3, LOOK | SYNC | ASK | LOOKB), rc(60, 1, 1, 0, 2, SYNC, 1, CLR)]
    if tier == "thorough":
        j += [rc(600, 1, 2, HOT, 3, LOOK, 1, LOOK | SYNC), rc(600, 1, 3, FULL | TWO, 3, ASK), rc(600, 1, 3, FULL, 2, SYNC | ASK, 1, SYNC),
              rc(600, 1, 1, 0, 2, SYNC | ASK, 2, SYNC | ASK, 1, CLR), rc(600, 2, 1, 0, 4, SYNC | ASK | CLRQ),
              rc(600, 2, 1, 0, 2, LOOK | SYNC | ASK | LOOKB, 1, SYNC)]
    return rt(COMP, j)


def eviction(tier):
    j = [(60, "h_evict", x) for x in ((3, 2, 1), (4, 3, 2), (4, 2, 3), (3, 3, 7))]
    j += [rc(60, 1, 1, FAIL, 2, LOOK | SYNC, 1, LOOK | SYNC), rc(60, 1, 1, 0, 3, SYNC | GET, 1, SYNC), rc(60, 1, 2, 0, 3, SYNC | GET)]
    if tier == "thorough":
        j += [(900, "h_evict", x) for x in ((5, 2, 1), (5, 3, 2), (5, 2, 3), (4, 3, 7), (6, 2, 2))]
        j += [rc(600, 1, 3, 0, 2, LOOK | SYNC | GET, 1, SYNC | GET)]
    return rt(STAY, j)


def switching(tier):
    j = [(60, "h_switch", (4, 3)), (60, "h_switch", (4, 1)), (60, "h_switch", (3, 8))]
    if tier == "thorough":
        j += [(600, "h_switch", (5, 1)), (600, "h_switch", (5, 3)), (600, "h_switch", (6, 2))]
    return rt(SWITCH, j)


def counting(tier):
    j = [rc(60, 1, 1, FAIL, 2, LOOK | SYNC, 1, LOOK | SYNC), rc(60, 1, 1, 0, 2, SYNC | ASK, 1, CLRQ), rc(60, 1, 1, AOT, 2, LOOK | PREP, 1, LOOK),
         rc(60, 1, 3, FULL, 3, ASK), rc(60, 1, 1, TICK, 3, LOOK, 1, LOOK), rc(60, 1, 1, TIGHT, 3, LOOK | ASK),
         rc(60, 1, 1, 0, 2, SYNC, 1, CLR), rc(60, 1, 2, HOT, 2, LOOK, 1, LOOK | SYNC), (60, "h_evict", (4, 3, 2)), (60, "h_evict", (3, 2, 1))]
    if tier == "thorough":
        j += [rc(600, 1, 2, FAIL, 2, LOOK | SYNC | ASK, 1, LOOK), (600, "h_evict", (5, 2, 3)), rc(600, 2, 1, 0, 3, SYNC | ASK | CLRQ)]
    return rt(STAT, j)


def kept(tier):
    j = [(90, "h_persist", (4, 0)), (60, "h_persist", (4, 1))]
    if tier == "thorough":
        j += [(900, "h_persist", (5, 0)), (900, "h_persist", (5, 1)), (900, "h_persist", (6, 1))]
    return rt(KEPT, j)


def wrappers(tier):
    calls_ = (0xf1, 0xf2, 0xf4, 0xfa, 0)
    j = [(30, "h_evm", (w, OSAKA, o, k, 65, 0)) for w in (0, 1) for o in calls_ for k in range(8)]
    for w in (0, 1):
        j += [(30, "h_evm", (w, OSAKA, 0xf1, k, f, 0)) for k in range(7) for f in (2, 16, 130)]
        j += [(30, "h_evm", (w, s, o, k, 1, 0)) for k in (0, 1, 3, 5) for s, o in ((BYZANTIUM, 0xf2), (BERLIN, 0xf1), (FRONTIER, 0xf1))]
        j += [(45, "h_evm", (w, OSAKA, 0xf1, k, 33, 0)) for k in (0, 1)]
    j += [(30, "h_evm", (1, s, 0xf1, k, f, t)) for k in (0, 1, 3) for s, t in ((OSAKA, BYZANTIUM), (OSAKA, 12), (BERLIN, OSAKA))
          for f in (6, 7, 12, 15, 134)]
    j += [(30, "h_evm", (1, OSAKA, 0xf1, k, f, 0)) for k in (0, 1, 5) for f in (258, 259, 512, 513, 514, 515, 8, 9)]
    j += [(30, "h_alloy", (i, s, 0xf1, k, f)) for i in (0, 1) for s in (OSAKA, BERLIN) for k in (0, 1, 7, 8) for f in (2, 3, 11)]
    if tier == "thorough":
        j += [(300, "h_evm", (w, s, o, k, f, 0)) for w in (0, 1) for s in (BYZANTIUM, BERLIN, 12, OSAKA, AMSTERDAM) for o in calls_
              for k in range(9) for f in (67, 83)]
        j += [(600, "h_evm", (w, OSAKA, o, k, 33, 0)) for w in (0, 1) for o in (0xf1, 0xf4, 0) for k in range(7)]
        j += [(300, "h_alloy", (i, s, o, k, f)) for i in (0, 1) for s in (BYZANTIUM, 12, OSAKA) for o in (0xf1, 0xf4, 0xfa) for k in range(9) for f in (3, 11)]
    return j


def reuse(tier):
    j = [(40, "h_tmpl", (OSAKA, REUSE | PLENTY | f, t, 0)) for f in (0, INSPECT) for t in range(11)]
    for s in (FRONTIER, OSAKA):
        j += op1(s, [o for o in range(0x00, 0x60) if o not in HARD_OPS] + [0x60, 0x7f, 0x80, 0x90] + list(range(0xa0, 0xa5)) + [0xf3, 0xfd, 0xfe, 0xff], 3, REUSE | PLENTY, 40)
    j += op1(OSAKA, CALLS + CREATES, 3, REUSE | PLENTY, 40)
    j += [(40, "h_mem", (OSAKA, REUSE | PLENTY, 1, i, 0)) for i in range(9)]
    j += [(40, "h_dse", (OSAKA, REUSE | PLENTY, sh)) for sh in (0, 3, 6)] + [(40, "h_dup", (OSAKA, REUSE, 0, s)) for s in (0, 2)]
    j += op1(OSAKA, [0x01, 0x0a, 0x20, 0x52, 0x54], 3, REUSE | CONST | PLENTY, 40)
    if tier == "thorough":
        j += [(200, "h_cfg", (OSAKA, REUSE | PLENTY | f, 3, 0, sh, 0)) for f in (0, NOOPT, MULTI) for sh in range(9)]
        j += [(200, "h_seq", (OSAKA, REUSE | PLENTY, 3, 0, i, 2, 4, 4)) for i in range(23)]
    return j


A_RT = [
    "The runtime's sources are compiled unchanged between models of threads, locks, channels, queues, the clock, files, the dynamic loader, "
    "the rayon pool and the compiler (rt/src/models.rs, vstd.rs, sched.rs); the resident map is the real dashmap.",
    "Threads switch where they wait and, as often as the bound says, before any operation on a channel, queue, map or lock; atomics are "
    "sequentially consistent and do not switch.",
    "A compilation takes any time and succeeds or fails; a time limit on a wait either never passes or passes when the scenario says so.",
    "States equal up to names of objects, dead registers and dead memory are explored once.",
    "The helper process of out-of-process compilation is outside.",
]
T_RT = "symbolic execution of the LLVM IR of revmc-runtime over all schedules within a preemption bound, decided by Z3"
N_RT = ("Trusted: the symbolic executor, Z3, the models of threads, channels and files. Schedules with more preemptions, more callers or calls, and the "
        "out-of-process helper are outside; branches left at the time limit are listed in the evidence.")

A_COMMON = [
    "The oracle is revm-interpreter as pinned in Cargo.lock, executed symbolically from its own IR.",
    "The machine code of a compiled program is the IR revmc hands its backend, evaluated by the harness's recording "
    "backend (harness/src/ir.rs); LLVM's own optimiser and code generator are outside.",
    "Failing runs (exceptional halts) are compared as failing, not by which exceptional halt.",
    "Hash maps' hashing, keccak256 and exponentiation of two symbolic words are uninterpreted functions refined on demand.",
]
W_RUN = ["success or revert"]

PROPS = {
    "C01": dict(jobs=words, witnesses=W_RUN + ["failure"],
                bounds="one instruction over symbolic 256-bit operands and symbolic gas; two- and three-instruction "
                       "sequences over three or four symbolic words"),
    "C02": dict(jobs=consts, witnesses=W_RUN,
                bounds="one instruction with any subset of its operands a symbolic constant in the code (256 bits; for "
                       "multiplication, division and powers one or two bytes, special values and powers of two); "
                       "three-instruction sequences over two constants"),
    "C03": dict(jobs=gas, witnesses=W_RUN + ["failure"],
                bounds="symbolic gas; one instruction of every kind on each fork its price changed; sequences of two and "
                       "three; two-block control flow graphs; one set of prices other than any fork's (any prices in the thorough tier)"),
    "C04": dict(jobs=stack, witnesses=W_RUN + ["failure"],
                bounds="initial heights 0 to 3, 16, 17 and 1021 to 1024; one to two instructions, with and without a block "
                       "boundary; every opcode on every too short stack"),
    "C05": dict(jobs=memory, witnesses=W_RUN + ["failure"],
                bounds="one memory instruction at offsets and lengths around word boundaries, out of reach and of more than "
                       "64 bits; two in a row at offsets 0 and 33; contents symbolic"),
    "C06": dict(jobs=control, witnesses=W_RUN + ["failure"],
                bounds="eleven program shapes with symbolic details, graphs of two and three blocks, at most 120 steps"),
    "C07": dict(jobs=env, witnesses=W_RUN,
                bounds="one environment instruction, everything it reads symbolic; copies at table offsets"),
    "C08": dict(jobs=state, witnesses=W_RUN + ["failure"],
                bounds="one or two state instructions with symbolic operands, static flag, environment and host answers"),
    "C09": dict(jobs=calls, witnesses=["call or create"] + W_RUN,
                bounds="one or two calls or creations; child results symbolic with 0, 17 or 34 bytes of output"),
    "C10": dict(jobs=output, witnesses=W_RUN + ["failure"],
                bounds="one ending; offsets and lengths 0 to 65, far and of more than 64 bits"),
    "C11": dict(jobs=forks, witnesses=W_RUN + ["failure"],
                bounds="every opcode on every fork, once, symbolic operands, small memory ranges"),
    "C12": dict(jobs=options, limit=400, witnesses=W_RUN,
                bounds="program shapes, memory instructions, dead-store and duplicate-block shapes under each option set; any budget for folding constants; gas "
                       "metering off"),
    "C13": dict(jobs=total, witnesses=W_RUN + ["failure"],
                bounds="one arbitrary byte run on three forks, two arbitrary bytes compiled, in a fixed context"),
    "C14": dict(jobs=faults, witnesses=W_RUN + ["failure"],
                bounds="one or two instructions that ask the host, every call failing or not, gas sufficient"),
}
RT = dict(harness="rt", assumptions=A_RT, technique=T_RT, note=N_RT)
CALLS_BOUND = ("one to three callers making two to four calls in all, every schedule with one preemption (two for the smallest) beside the switches "
               "where threads wait, one to three keys")
PROPS.update({
    "C15": dict(jobs=identity, witnesses=["program", "lookup finds", "end"], bounds=CALLS_BOUND + "; symbolic threshold, size limit and options", **RT),
    "C16": dict(jobs=waiting, witnesses=["sync resident", "shut down", "end"], bounds=CALLS_BOUND + "; queues of one and of several places", **RT),
    "C17": dict(jobs=clearing, witnesses=["cleared", "end"], bounds=CALLS_BOUND, **RT),
    "C18": dict(jobs=admission, witnesses=["hot", "end"], bounds=CALLS_BOUND + "; any threshold, any size limit, limits of one or two jobs", **RT),
    "C19": dict(jobs=eviction, witnesses=["evicted as idle", "evicted for room", "end"],
                bounds="three or four steps of compiling, using and waiting on two or three programs; any times, limits and intervals below 65536 s, "
                       "any budget below 65536 bytes", **RT),
    "C20": dict(jobs=switching, witnesses=["looked", "end"], bounds="sequences of four calls by one caller, command queues of one, three and eight places", **RT),
    "C21": dict(jobs=counting, witnesses=["end"], bounds=CALLS_BOUND, **RT),
    "C22": dict(jobs=kept, witnesses=["restarted", "stored program", "end"], bounds="sequences of four calls and restarts on three keys", **RT),
})
PROPS["C23"] = dict(
    jobs=wrappers, harness="evm", witnesses=["compiled code runs", "interpreted", "success", "revert", "database error", "inspected", "end"],
    bounds="one or two transactions or system calls between two contracts with calls up to three deep, nine kinds of callee; each lookup answered "
           "compiled or interpreted; a symbolic storage word, balance, block and chain id; gas of any amount in a few shapes",
    assumptions=[
        "The oracle is revm's own Evm (and alloy-evm's EthEvm) as pinned in Cargo.lock, executed symbolically beside the wrapper.",
        "revm_evm.rs and alloy_evm.rs are compiled unchanged against a model of JitBackend that answers each lookup as it likes with a program "
        "revmc compiled from the request's code for the request's hardfork; the real backend is C15 to C22's subject.",
        "revmc-context's miss handler answers the same for the same code as long as a frame runs.",
        "Compiled code reports no single steps to inspectors; where gas runs out, the events before it and the slots looked at are not compared.",
        "keccak256 of concrete code is computed, of symbolic data uninterpreted.",
    ])
def text(tier):
    j = [(30, "h_asm", (4,)), (30, "h_asm", (2, 0)), (30, "h_asm", (2, 1)), (90, "h_asm", (5,))]
    j += [(40, "h_asm", (1, 1, 2, k)) for k in range(13)]
    j += [(60, "h_asm", (1, 1, n, k)) for n, k in ((64, 0), (40, 2), (64, 2), (5, 0), (19, 1), (3, 3))]
    j += [(60, "h_asm", (1, 2, 1, 13))]
    j += [(60, "h_asm", (3, 1, s)) for s in (FRONTIER, OSAKA, AMSTERDAM)] + [(60, "h_asm", (3, n, OSAKA)) for n in (2, 3, 4)]
    j += [(40, "h_asm", (0, 2, k)) for k in (4, 5, 7, 10)] + [(40, "h_asm", (0, 1, k)) for k in range(12)]
    if tier == "thorough":
        j += [(600, "h_asm", (0, n, k)) for n in (2, 3, 4) for k in range(12)]
        j += [(600, "h_asm", (1, n, d, 13)) for n, d in ((2, 2), (3, 1))] + [(600, "h_asm", (3, n, s)) for n in (3, 4) for s in (FRONTIER, OSAKA, AMSTERDAM)]
    return j


def word(tier):
    return [(60, "h_word", (0,)), (60, "h_word", (1,))]


PROPS["C25"] = dict(
    jobs=text, witnesses=["assembled", "rejected", "printed"],
    bounds="sources of one or two instructions with any numbers of one to three digits, or longer ones with any first and last digits; labels around where pushes "
           "grow; macros of two parameters; any two characters after table prefixes; printed code of up to four bytes; every stack position")
PROPS["C26"] = dict(
    jobs=word, witnesses=["word"], bounds="every word; slices of 0 to 32 bytes; stacks of 0, 1, 3, 1021 and 1023 words, any three at the top")
PROPS["C24"] = dict(
    jobs=reuse, witnesses=W_RUN,
    bounds="one program of any instruction or of a shape of C06, C05 or C12, compiled after another program or after itself, under other options "
           "and on another hardfork, the compiler cleared in between or not")
for p in PROPS.values():
    p.setdefault("level", "model_checking")
    p.setdefault("assumptions", A_COMMON)

# The guard of the hooks in /repo, how checks enable it, and the commits that add them.
GUARD = ("none", "no hooks are needed", [])
