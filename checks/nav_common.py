"""Navigation messages, encoded from their interface documents (independently of the specification and the code)."""
import vlib
SRC = ["common/ephemeris/gps.cxx", "common/ephemeris/galileo.cxx", "common/ephemeris/glonass.cxx", "utils/crc.cxx",
       "common/utctime.cxx", "common/quantized_time.cxx", "common/print.cxx", "common/check.cxx"]


def exe():
    return vlib.build("nav", "nav.cpp", SRC, flags=["-fsanitize=address,undefined", "-fno-sanitize=shift,signed-integer-overflow,alignment"],
                      libs=["-fsanitize=address,undefined"])


def bits(rng, n):
    """n bits: random, or a boundary value"""
    k = rng.random()
    if k < .12:
        return [0] * n
    if k < .2:
        return [1] * n
    if k < .26:
        return [1] + [0] * (n - 1)
    if k < .32:
        return [0] + [1] * (n - 1)
    if k < .36:
        return [0] * (n - 1) + [1]
    return [rng.randrange(2) for _ in range(n)]


def number(v, n):
    return [(v >> (n - 1 - k)) & 1 for k in range(n)]


def put(b, p, v):
    b[p:p + len(v)] = v


def fill(rng, b, fields):
    for p, n in fields:
        put(b, p, bits(rng, n))


def words(ws):
    """little-endian 32 bit words"""
    return "".join("%02x%02x%02x%02x" % (w & 255, (w >> 8) & 255, (w >> 16) & 255, w >> 24) for w in ws)


def to_words(b):
    return words([int("".join(map(str, b[k:k + 32])), 2) for k in range(0, len(b), 32)])


# ---------------------------------------------------------------------------------------------- GPS
GPS_FIELDS = {1: [(48, 10), (58, 2), (60, 4), (64, 6), (72, 1), (160, 8), (192, 8), (200, 16), (216, 22)],
              2: [(56, 16), (72, 16), (88, 32), (120, 16), (136, 32), (168, 16), (184, 32), (216, 16), (232, 1)],
              3: [(48, 16), (64, 32), (96, 16), (112, 32), (144, 16), (160, 32), (192, 24), (224, 14)]}


def gps_subframe(rng, kind, issue, tow=None, iodc_msb=None):
    b = [rng.randrange(2) for _ in range(240)]
    put(b, 0, number(0x8B, 8))
    put(b, 24, number(rng.choice([0, 1, 100799, rng.randrange(100800), rng.randrange(100800)]) if tow is None else tow, 17))
    put(b, 43, number(kind, 3))
    if kind in GPS_FIELDS:
        fill(rng, b, GPS_FIELDS[kind])
    if kind == 1:
        if b[160:168] == number(128, 8):
            put(b, 160, number(127, 8))         # "not available" is reported as 0
        put(b, 168, number(issue, 8))
        put(b, 176, number(rng.choice([0, 450, 37799, rng.randrange(37800)]), 16))
        if iodc_msb is not None:
            put(b, 70, number(iodc_msb, 2))
    if kind == 2:
        put(b, 48, number(issue, 8))
        put(b, 216, number(rng.choice([0, 450, 37799, rng.randrange(37800)]), 16))
    if kind == 3:
        put(b, 216, number(issue, 8))
    return b


def gps_hex(rng, b):
    out = []
    for k in range(10):
        w = int("".join(map(str, b[24 * k:24 * k + 24])), 2)
        out.append(rng.randrange(4) << 30 | w << 6 | rng.randrange(64))
    return words(out)


# ---------------------------------------------------------------------------------------------- Galileo
GAL_FIELDS = {0: [(6, 2)], 1: [(30, 32), (62, 32), (94, 32)], 2: [(16, 32), (48, 32), (80, 32), (112, 14)],
              3: [(16, 24), (40, 16), (56, 16), (72, 16), (88, 16), (104, 16)],
              4: [(22, 16), (38, 16), (68, 31), (99, 21), (120, 6)],
              5: [(6, 11), (17, 11), (28, 14), (47, 10), (57, 10), (67, 2), (69, 2), (71, 1), (72, 1)]}


def crc24q(bs):
    r = 0
    for x in bs:
        r ^= x << 23
        r = ((r << 1) ^ 0x1864CFB) & 0xFFFFFF if r & 0x800000 else r << 1
    return r


def gal_word(rng, kind, iod, sat, week=None, tow=None, toes=None):
    b = [rng.randrange(2) for _ in range(128)]
    put(b, 0, number(kind, 6))
    if kind in GAL_FIELDS:
        fill(rng, b, GAL_FIELDS[kind])
    if kind in (1, 2, 3, 4):
        put(b, 6, number(iod, 10))
    if kind == 1:
        put(b, 16, number(rng.choice([0, 10079, rng.randrange(10080)]) if toes is None else toes, 14))
    if kind == 4:
        put(b, 16, number(sat, 6))
        put(b, 54, number(rng.choice([0, 10079, rng.randrange(10080)]) if toes is None else toes, 14))
    if kind == 0:
        put(b, 6, [1, 0])
        put(b, 96, number(rng.randrange(0, 4096) if week is None else week, 12))
        put(b, 108, number(rng.choice([0, 604799, rng.randrange(604800)]) if tow is None else tow, 20))
    return b


def gal_page(rng, word):
    """even page: 0, page type, 112 bits, 6 tail bits; odd page: 1, page type, 16 bits, 40 + 22 + 2 bits, CRC, 8 + 6"""
    even = [0, 0] + word[:112] + [0] * 6
    odd = [1, 0] + word[112:] + [rng.randrange(2) for _ in range(64)]
    odd += number(crc24q(even[:114] + odd[:82]), 24) + [rng.randrange(2) for _ in range(8)] + [0] * 6
    return even + [rng.randrange(2) for _ in range(8)] + odd + [rng.randrange(2) for _ in range(8)]


def gal_redo_crc(p):
    put(p, 128 + 82, number(crc24q(p[:114] + p[128:128 + 82]), 24))
    return p


# ---------------------------------------------------------------------------------------------- GLONASS
GLO_FIELDS = {1: [(9, 5), (14, 6), (20, 1), (21, 24), (45, 5), (50, 27)], 2: [(5, 3), (9, 7), (21, 24), (45, 5), (50, 27)],
              3: [(6, 11), (21, 24), (45, 5), (50, 27)], 4: [(5, 22), (27, 5), (32, 5), (52, 4), (59, 11), (70, 5)],
              5: [(5, 11), (49, 5)]}


def _c(*rs):
    s = set()
    for r in rs:
        s |= set(range(r[0], r[1] + 1)) if isinstance(r, tuple) else {r}
    return s


# bits covered by each check bit (ICD, table 4.13), numbered 85 (first) down to 1
GLO_COVER = [
    _c(9, 10, 12, 13, 15, 17, 19, 20, 22, 24, 26, 28, 30, 32, 34, 35, 37, 39, 41, 43, 45, 47, 49, 51, 53, 55, 57, 59, 61, 63, 65,
       66, 68, 70, 72, 74, 76, 78, 80, 82, 84),
    _c(9, 11, 12, 14, 15, 18, 19, 21, 22, 25, 26, 29, 30, 33, 34, 36, 37, 40, 41, 44, 45, 48, 49, 52, 53, 56, 57, 60, 61, 64, 65,
       67, 68, 71, 72, 75, 76, 79, 80, 83, 84),
    _c((10, 12), (16, 19), (23, 26), (31, 34), (38, 41), (46, 49), (54, 57), (62, 65), (69, 72), (77, 80), 85),
    _c((13, 19), (27, 34), (42, 49), (58, 65), (73, 80)),
    _c((20, 34), (50, 65), (81, 85)), _c((35, 65)), _c((66, 85))]


def glo_checks(b):
    for i, cover in enumerate(GLO_COVER):
        b[85 - (i + 1)] = sum(b[85 - n] for n in cover) % 2
    b[85 - 8] = 0
    b[85 - 8] = sum(b[:85]) % 2
    return b


def glo_string(rng, kind, mark):
    b = [rng.randrange(2) for _ in range(128)]
    b[0] = 0 if rng.random() < .9 else 1
    put(b, 1, number(kind, 4))
    if kind in GLO_FIELDS:
        fill(rng, b, GLO_FIELDS[kind])
    put(b, 96, number(mark, 16))
    return glo_checks(b)


def cut(rng, hx):
    return hx[:2 * rng.randrange(0, len(hx) // 2)]
