"""
Lexical rules: independent recognisers and generators for XSD literals, IRIs, language tags, media types and
the restricted strings of the AAS meta-model.

A recogniser returns True / False, or None where specifications disagree or the property makes no claim.
"""

import re
from fractions import Fraction

DIGITS = "0123456789"
HEX = DIGITS + "abcdefABCDEF"
LOWER = "abcdefghijklmnopqrstuvwxyz"
UPPER = LOWER.upper()
LETTERS = LOWER + UPPER
ALNUM = LETTERS + DIGITS
XMLWS = " \t\r\n"


def all_in(s, alphabet):
    return all(c in alphabet for c in s)


def digits(s):
    return len(s) > 0 and all_in(s, DIGITS)


def xml_char(c):
    o = ord(c)
    return o in (9, 10, 13) or 0x20 <= o <= 0xD7FF or 0xE000 <= o <= 0xFFFD or 0x10000 <= o <= 0x10FFFF


def xml_string(s):
    return all(xml_char(c) for c in s)


# ---------------------------------------------------------------- numbers

BOUNDS = {
    "byte": (-(2**7), 2**7 - 1),
    "short": (-(2**15), 2**15 - 1),
    "int": (-(2**31), 2**31 - 1),
    "long": (-(2**63), 2**63 - 1),
    "unsignedByte": (0, 2**8 - 1),
    "unsignedShort": (0, 2**16 - 1),
    "unsignedInt": (0, 2**32 - 1),
    "unsignedLong": (0, 2**64 - 1),
    "integer": (None, None),
    "positiveInteger": (1, None),
    "nonNegativeInteger": (0, None),
    "negativeInteger": (None, -1),
    "nonPositiveInteger": (None, 0),
}


def _split_sign(s):
    if s[:1] in ("+", "-"):
        return s[0], s[1:]
    return "", s


def big_int(s):
    """int() without the limit on the number of digits"""
    v = 0
    for i in range(0, len(s), 1000):
        part = s[i : i + 1000]
        v = v * 10 ** len(part) + int(part)
    return v


def is_integer(s, lo, hi):
    sign, rest = _split_sign(s)
    if not digits(rest):
        return False
    v = big_int(rest)
    if sign == "-":
        v = -v
    return (lo is None or v >= lo) and (hi is None or v <= hi)


def _mantissa(s):
    """[+-]?(d+(.d*)?|.d+) -> (sign, int digits, fraction digits) or None"""
    sign, rest = _split_sign(s)
    if rest.count(".") > 1:
        return None
    a, dot, b = rest.partition(".")
    if not (a or b):
        return None
    if a and not digits(a) or b and not digits(b):
        return None
    return sign, a, b


def is_decimal(s):
    return _mantissa(s) is not None


FLT_MAX = Fraction(2**24 - 1) * Fraction(2) ** 104
FLT_LIMIT = Fraction(2) ** 128 - Fraction(2) ** 103  # from here on rounding gives infinity
DBL_MAX = Fraction(2**53 - 1) * Fraction(2) ** 971
DBL_LIMIT = Fraction(2) ** 1024 - Fraction(2) ** 970


def is_floating(s, top, limit):
    if s in ("INF", "-INF", "NaN"):
        return True
    if s == "+INF":
        return None
    m = re.split("[eE]", s)
    if len(m) > 2:
        return False
    mant = _mantissa(m[0])
    if mant is None:
        return False
    e = 0
    if len(m) == 2:
        sign, rest = _split_sign(m[1])
        if not digits(rest):
            return False
        if len(rest.lstrip("0")) > 6:
            if sign == "-":
                return True
            return None if not (mant[1] + mant[2]).strip("0") else False
        e = int(rest) * (-1 if sign == "-" else 1)
    ds = mant[1] + mant[2]
    n = big_int(ds) if ds else 0
    v = Fraction(n) * Fraction(10) ** (e - len(mant[2])) if abs(e) < 20000 else None
    if v is None:
        if n == 0:
            return True
        return e < 0
    if v <= top:
        return True
    if v >= limit:
        return False
    return None


# ---------------------------------------------------------------- dates

DAYS = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def _tz(s):
    """s is an optional time zone"""
    if s == "" or s == "Z":
        return True
    if len(s) != 6 or s[0] not in "+-" or s[3] != ":" or not digits(s[1:3]) or not digits(s[4:6]):
        return False
    h, m = int(s[1:3]), int(s[4:6])
    return (h <= 13 and m <= 59) or (h == 14 and m == 0)


def _year(s):
    """-> (ok, year modulo-safe int, rest) parses a year at the start of s"""
    neg = s.startswith("-")
    t = s[1:] if neg else s
    n = 0
    while n < len(t) and t[n] in DIGITS:
        n += 1
    d, rest = t[:n], t[n:]
    if n < 4 or (n > 4 and d[0] == "0"):
        return False, None, rest
    y = big_int(d)
    return True, (-y if neg else y), rest


def leap(y):
    if y < 0:
        y = -y - 1  # there is no year 0: -0001 is 1 BC, which is leap in the proleptic calendar
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def _two(s, lo, hi):
    return len(s) == 2 and digits(s) and lo <= int(s) <= hi


def _date_prefix(s):
    """-> (ok, rest) where rest is what follows YYYY-MM-DD"""
    ok, y, rest = _year(s)
    if not ok or y == 0:
        return False, ""
    if len(rest) < 6 or rest[0] != "-" or rest[3] != "-":
        return False, ""
    mm, dd, rest = rest[1:3], rest[4:6], rest[6:]
    if not _two(mm, 1, 12) or not _two(dd, 1, 31):
        return False, ""
    m, d = int(mm), int(dd)
    if d > DAYS[m - 1] or (m == 2 and d == 29 and not leap(y)):
        return False, ""
    return True, rest


def is_date(s):
    ok, rest = _date_prefix(s)
    return ok and _tz(rest)


def _time_prefix(s):
    if len(s) < 8 or s[2] != ":" or s[5] != ":":
        return False, ""
    h, m, sec, rest = s[0:2], s[3:5], s[6:8], s[8:]
    frac = None
    if rest.startswith("."):
        n = 1
        while n < len(rest) and rest[n] in DIGITS:
            n += 1
        frac, rest = rest[1:n], rest[n:]
        if frac == "":
            return False, ""
    if h == "24":
        return (m == "00" and sec == "00" and (frac is None or frac.strip("0") == "")), rest
    return _two(h, 0, 23) and _two(m, 0, 59) and _two(sec, 0, 59), rest


def is_time(s):
    ok, rest = _time_prefix(s)
    return ok and _tz(rest)


def is_date_time(s):
    ok, rest = _date_prefix(s)
    if not ok or not rest.startswith("T"):
        return False
    ok, rest = _time_prefix(rest[1:])
    return ok and _tz(rest)


def is_g_year(s):
    ok, y, rest = _year(s)
    if not ok:
        return False
    if not _tz(rest):
        return False
    return None if y == 0 else True


def is_g_year_month(s):
    ok, y, rest = _year(s)
    if not ok or not rest.startswith("-") or not _two(rest[1:3], 1, 12) or not _tz(rest[3:]):
        return False
    return None if y == 0 else True


def is_g_month(s):
    return s.startswith("--") and _two(s[2:4], 1, 12) and _tz(s[4:])


def is_g_day(s):
    return s.startswith("---") and _two(s[3:5], 1, 31) and _tz(s[5:])


def is_g_month_day(s):
    if not (s.startswith("--") and _two(s[2:4], 1, 12) and s[4:5] == "-" and _two(s[5:7], 1, 31) and _tz(s[7:])):
        return False
    return int(s[5:7]) <= DAYS[int(s[2:4]) - 1]


def is_duration(s):
    if s.startswith("-"):
        s = s[1:]
    if not s.startswith("P"):
        return False
    s = s[1:]
    date, t, time = s.partition("T")
    if t and not time:
        return False
    if not date and not time:
        return False

    def comps(s, units):
        pos = 0
        i = 0
        while i < len(s):
            n = i
            while n < len(s) and (s[n] in DIGITS or s[n] == "."):
                n += 1
            if n == i or n == len(s):
                return False
            num, unit = s[i:n], s[n]
            if unit not in units[pos:]:
                return False
            pos = units.index(unit) + 1
            a, dot, b = num.partition(".")
            if not digits(a):
                return False
            if dot and (unit != "S" or not digits(b)):
                return False
            i = n + 1
        return True

    return comps(date, ["Y", "M", "D"]) and comps(time, ["H", "M", "S"])


# ---------------------------------------------------------------- binary

B64 = ALNUM + "+/"
B64_ORDER = UPPER + LOWER + DIGITS + "+/"


def is_hex(s):
    return len(s) % 2 == 0 and all_in(s, HEX)


def is_base64(s):
    if any(c in XMLWS for c in s):
        return None
    if len(s) % 4:
        return False
    body = s.rstrip("=")
    pad = len(s) - len(body)
    if pad > 2 or not all_in(body, B64):
        return False
    if pad and s == "=" * pad:
        return False
    if pad == 1 and B64_ORDER.index(body[-1]) % 4:
        return None
    if pad == 2 and B64_ORDER.index(body[-1]) % 16:
        return None
    return True


# ---------------------------------------------------------------- IRI (RFC 3987)


def _ucschar(c):
    o = ord(c)
    if 0xA0 <= o <= 0xD7FF or 0xF900 <= o <= 0xFDCF or 0xFDF0 <= o <= 0xFFEF:
        return True
    if 0x10000 <= o <= 0xDFFFD:
        return (o & 0xFFFF) <= 0xFFFD
    return 0xE1000 <= o <= 0xEFFFD


def _iprivate(c):
    o = ord(c)
    return 0xE000 <= o <= 0xF8FF or 0xF0000 <= o <= 0xFFFFD or 0x100000 <= o <= 0x10FFFD


def _chars(s, extra, private=False):
    """s consists of iunreserved / pct-encoded / sub-delims / extra"""
    i = 0
    while i < len(s):
        c = s[i]
        if c == "%":
            if not (len(s[i + 1 : i + 3]) == 2 and all_in(s[i + 1 : i + 3], HEX)):
                return False
            i += 3
            continue
        if not (c in ALNUM or c in "-._~!$&'()*+,;=" or c in extra or _ucschar(c) or (private and _iprivate(c))):
            return False
        i += 1
    return True


def _ipv4(s):
    parts = s.split(".")
    return len(parts) == 4 and all(
        digits(p) and len(p) <= 3 and int(p) <= 255 and (p == "0" or p[0] != "0") for p in parts
    )


def _ipv6(s):
    if s.count("::") > 1 or ":::" in s:
        return False

    def words(t, last):
        """number of 16 bit words or None"""
        if t == "":
            return 0
        n = 0
        parts = t.split(":")
        for i, p in enumerate(parts):
            if last and i == len(parts) - 1 and "." in p:
                if not _ipv4(p):
                    return None
                n += 2
            elif 1 <= len(p) <= 4 and all_in(p, HEX):
                n += 1
            else:
                return None
        return n

    if "::" in s:
        a, b = s.split("::")
        na, nb = words(a, False), words(b, True)
        if na is None or nb is None:
            return False
        return na + nb <= 7
    return words(s, True) == 8


def _ihost(s):
    if s.startswith("["):
        if not s.endswith("]"):
            return False
        s = s[1:-1]
        if s[:1] in ("v", "V"):
            ver, dot, rest = s[1:].partition(".")
            return bool(dot) and len(ver) > 0 and all_in(ver, HEX) and len(rest) > 0 and all_in(rest, ALNUM + "-._~!$&'()*+,;=:")
        return _ipv6(s)
    return _chars(s, "")


def _iauthority(s):
    if "@" in s:
        user, s = s.split("@", 1)
        if not _chars(user, ":"):
            return False
    if s.startswith("["):
        end = s.find("]")
        if end < 0:
            return False
        host, rest = s[: end + 1], s[end + 1 :]
        if rest and not (rest[0] == ":" and all_in(rest[1:], DIGITS)):
            return False
        return _ihost(host)
    host, colon, port = s.partition(":")
    return all_in(port, DIGITS) and _ihost(host)


def is_any_uri(s):
    """IRI-reference"""
    if "#" in s:
        s, frag = s.split("#", 1)
        if not _chars(frag, ":@/?"):
            return False
    if "?" in s:
        s, query = s.split("?", 1)
        if not _chars(query, ":@/?", private=True):
            return False
    # scheme?
    head = s.split("/", 1)[0]
    if ":" in head:
        scheme, s = s.split(":", 1)
        if not scheme or scheme[0] not in LETTERS or not all_in(scheme, ALNUM + "+-."):
            return False
    if s.startswith("//"):
        auth, slash, path = s[2:].partition("/")
        return _iauthority(auth) and _chars(path, ":@/")
    return _chars(s, ":@/")


# ---------------------------------------------------------------- all XSD types

XSD = {
    "xs:string": lambda s: True,
    "xs:boolean": lambda s: s in ("true", "false", "1", "0"),
    "xs:decimal": is_decimal,
    "xs:float": lambda s: is_floating(s, FLT_MAX, FLT_LIMIT),
    "xs:double": lambda s: is_floating(s, DBL_MAX, DBL_LIMIT),
    "xs:date": is_date,
    "xs:time": is_time,
    "xs:dateTime": is_date_time,
    "xs:gYear": is_g_year,
    "xs:gYearMonth": is_g_year_month,
    "xs:gMonth": is_g_month,
    "xs:gDay": is_g_day,
    "xs:gMonthDay": is_g_month_day,
    "xs:duration": is_duration,
    "xs:hexBinary": is_hex,
    "xs:base64Binary": is_base64,
    "xs:anyURI": is_any_uri,
}
for _n, (_lo, _hi) in BOUNDS.items():
    XSD["xs:" + _n] = lambda s, lo=_lo, hi=_hi: is_integer(s, lo, hi)
XSD_TYPES = sorted(XSD)
assert len(XSD_TYPES) == 30


def xsd_ok(t, s):
    if not xml_string(s):
        return False
    if t == "xs:string":
        return True
    if s != s.strip(XMLWS):
        return None  # white space handling of the facets is not claimed
    if t != "xs:anyURI" and t != "xs:base64Binary" and s and (s[0].isspace() or s[-1].isspace()):
        return False
    return XSD[t](s)


# ---------------------------------------------------------------- generators of valid literals


def gen_tz(src):
    k = src.draw(4)
    if k <= 1:
        return ""
    if k == 2:
        return "Z"
    if k == 3:
        return src.pick("+-") + src.pick(["00:00", "14:00", "13:59", "05:30", "09:00", "10:59"])
    return src.pick("+-") + "%02d:%02d" % (src.int(0, 13), src.int(0, 59))


def gen_year(src):
    k = src.draw(6)
    sign = "-" if src.bool(0.15) else ""
    if k <= 1:
        y = "%04d" % src.int(1900, 2100)
    elif k == 2:
        y = src.pick(["2000", "1900", "2024", "0001", "0004", "0100", "0400", "9999", "1600", "2023", "10000"])
    elif k == 3:
        y = "%04d" % src.int(1, 9999)
    elif k == 4:
        y = str(src.int(1, 9)) + "".join(str(src.int(0, 9)) for _ in range(src.int(4, 8)))
    elif k == 5:
        y = str(src.int(1, 9)) + "".join(str(src.int(0, 9)) for _ in range(src.int(5, 30)))
    else:
        y = "%04d" % (src.int(0, 24) * 400 + src.pick([100, 200, 300, 400]))
    return sign + y


def gen_ymd(src):
    y = gen_year(src)
    k = src.draw(3)
    if k == 0:
        m = 2
        d = src.pick([28, 1, 29])
        if d == 29 and not leap(big_int(y.lstrip("-")) * (-1 if y[0] == "-" else 1)):
            d = 28
    else:
        m = src.int(1, 12)
        d = src.pick([1, DAYS[m - 1] if m != 2 else 28, src.int(1, 28)])
    return "%s-%02d-%02d" % (y, m, d)


def gen_hms(src):
    if src.draw(7) == 7:
        return "24:00:00" + src.pick(["", ".0", ".000"])
    f = "" if src.bool(0.6) else "." + src.chars(DIGITS, 1, 12)
    return "%02d:%02d:%02d%s" % (
        src.pick([0, 23, src.int(0, 23), 12]), src.pick([0, 59, src.int(0, 59)]), src.pick([0, 59, src.int(0, 59)]), f)


def gen_duration(src):
    def num():
        return src.pick(["0", "1", "12", "007", "999999999999", str(src.int(0, 400))])

    date = "".join(num() + u for u in "YMD" if src.bool())
    time = "".join(num() + u for u in "HM" if src.bool(0.4))
    if src.bool(0.4):
        time += num() + ("." + src.chars(DIGITS, 1, 9) if src.bool() else "") + "S"
    if not date and not time:
        date = num() + "D"
    return ("-" if src.bool(0.2) else "") + "P" + date + ("T" + time if time else "")


def gen_digits(src, lo=1, hi=25):
    return src.chars(DIGITS, lo, hi)


def gen_int(src, lo, hi):
    """an integer literal inside of the bounds, often at them"""
    k = src.draw(6)
    a = lo if lo is not None else -(10**30)
    b = hi if hi is not None else 10**30
    if k == 0:
        v = min(max(0, a), b)
    elif k == 1:
        v = a if lo is not None else src.pick([-1, -(2**63) - 1, -(2**64), -(10**400)])
        v = min(v, b)
    elif k == 2:
        v = b if hi is not None else src.pick([1, 2**63, 2**64, 10**400])
        v = max(v, a)
    elif k == 3:
        v = min(max(src.int(-300, 300), a), b)
    elif k == 4:
        v = a + src.int(0, min(5, b - a))
    elif k == 5:
        v = b - src.int(0, min(5, b - a))
    else:
        v = a + (src.draw(2**62) * (b - a)) // 2**62
    s = str(abs(v))
    if src.bool(0.15):
        s = "0" * src.int(1, 4) + s
    if v < 0:
        return "-" + s
    if v == 0 and src.bool(0.1):
        return src.pick(["-", "+"]) + s
    return ("+" if src.bool(0.15) else "") + s


def gen_decimal(src):
    sign = src.pick(["", "", "-", "+"])
    k = src.draw(4)
    if k == 0:
        return sign + gen_digits(src)
    if k == 1:
        return sign + gen_digits(src) + "."
    if k == 2:
        return sign + "." + gen_digits(src)
    return sign + gen_digits(src) + "." + gen_digits(src)


def gen_float(src, top):
    k = src.draw(5)
    if k == 0:
        return gen_decimal(src)
    if k == 1:
        return src.pick(["INF", "-INF", "NaN"])
    if k == 2:
        return gen_decimal(src) + src.pick("eE") + src.pick(["", "-", "+"]) + str(src.int(0, 12))
    if k == 3:
        return gen_decimal(src) + src.pick("eE") + "-" + str(src.int(0, 500))
    if k == 4:
        return src.pick(["", "-", "+"]) + top
    return src.pick(["0", "-0", "0.0", "1e-400", "0e0", "1E0", "00.10e+00"])


def gen_hex(src):
    return "".join(src.pick(HEX) + src.pick(HEX) for _ in range(src.size(0, 12, 0.7)))


def gen_base64(src, lo=0):
    n = src.size(lo, 14, 0.75)
    import base64

    return base64.b64encode(bytes(src.int(0, 255) for _ in range(n))).decode()


UCS = "\u00a0äéß中日\ud7ff\uf900\ufdcf\ufdf0\uffef\U00010000\U0001fffd\U000dfffd\U000e1000\U000efffd"
PCHAR = ALNUM + "-._~!$&'()*+,;=:@"


def gen_pchars(src, lo=0, hi=10, alphabet=PCHAR, ucs=True):
    out = []
    for _ in range(src.size(lo, hi, 0.75)):
        k = src.draw(9)
        if k == 9:
            out.append("%" + src.pick(HEX) + src.pick(HEX))
        elif k == 8 and ucs:
            out.append(src.pick(UCS))
        else:
            out.append(src.pick(alphabet))
    return "".join(out)


def gen_ipv4(src):
    return ".".join(str(src.pick([0, 255, 192, 10, 199, 249, 250, src.int(0, 255)])) for _ in range(4))


def gen_ipv6(src):
    def h16():
        return src.chars(HEX, 1, 4, 0.6)

    tail4 = src.bool(0.3)
    if src.bool(0.3):
        n = 6 if tail4 else 8
        return ":".join([h16() for _ in range(n)] + ([gen_ipv4(src)] if tail4 else []))
    total = src.int(0, 5 if tail4 else 7)
    a = src.int(0, total)
    left = ":".join(h16() for _ in range(a))
    right = [h16() for _ in range(total - a)] + ([gen_ipv4(src)] if tail4 else [])
    return left + "::" + ":".join(right)


def gen_authority(src):
    user = gen_pchars(src, 0, 5, ALNUM + "-._~!$&'()*+,;=:") + "@" if src.bool(0.2) else ""
    k = src.draw(4)
    if k <= 1:
        host = src.pick(["example.com", "localhost", "münchen.de", "a-b.c~d", ""])
    elif k == 2:
        host = gen_ipv4(src)
    elif k == 3:
        host = "[" + (gen_ipv6(src) if src.bool(0.8) else src.pick("vV") + src.chars(HEX, 1, 3) + "." + src.chars(ALNUM + ":-", 1, 5)) + "]"
    else:
        host = gen_pchars(src, 0, 8, ALNUM + "-._~!$&'()*+,;=")
    port = src.pick(["", "", ":", ":80", ":65536", ":00443"])
    return user + host + port


def gen_path_abempty(src):
    return "".join("/" + gen_pchars(src, 0, 8) for _ in range(src.size(0, 4)))


def gen_uri(src):
    k = src.draw(6)
    if k == 0:
        s = src.pick(["https://example.com/ids/sm/1", "/aasx/doc.pdf", "file:/x.png", "urn:x:y", "doc.pdf", "./a/b:c", "a%20b"])
    elif k == 1:
        s = "//" + gen_authority(src) + gen_path_abempty(src)
    elif k == 2:
        s = src.pick(LETTERS) + src.chars(ALNUM + "+-.", 0, 8) + "://" + gen_authority(src) + gen_path_abempty(src)
    elif k == 3:
        s = src.pick(LETTERS) + src.chars(ALNUM + "+-.", 0, 8) + ":" + gen_pchars(src, 0, 8) + gen_path_abempty(src)
    elif k == 4:
        s = "/" + gen_pchars(src, 1, 8) + gen_path_abempty(src)
    elif k == 5:
        s = gen_pchars(src, 1, 8, PCHAR.replace(":", "")) + gen_path_abempty(src)
    else:
        s = ""
    if src.bool(0.25):
        s += "?" + gen_pchars(src, 0, 8, PCHAR + "/?") + ("\ue000" if src.bool(0.1) else "")
    if src.bool(0.25):
        s += "#" + gen_pchars(src, 0, 8, PCHAR + "/?")
    # an empty first segment of a path would read as an authority
    return s if is_any_uri(s) else "a"


WILD = ["a", "b", "Z", "0", " ", "\t", "\n", "\r", "<", ">", "&", '"', "'", "ä", "\u2028", "\ud7ff", "\ue000", "\ufffd", "\U00010000", "\U0010ffff", "中", "]]>", "\\", "/", "@", "\x7f", "\x85"]


def gen_text(src, lo=1, hi=12, wild=True):
    """any XML serialisable text"""
    out = ""
    n = src.size(lo, hi, 0.75)
    while len(out) < n:
        out += src.pick(WILD) if wild and src.bool(0.4) else src.pick(ALNUM)
    return out[: max(n, lo)]


def gen_xsd(src, t, wild=True):
    n = t[3:]
    if n in BOUNDS:
        return gen_int(src, *BOUNDS[n])
    if n == "string":
        return gen_text(src, 0, 12, wild)
    if n == "boolean":
        return src.pick(["true", "false", "1", "0"])
    if n == "decimal":
        return gen_decimal(src)
    if n == "float":
        return gen_float(src, src.pick(["3.4028234663852885e38", "3.4028234e38", "340282346638528859811704183484516925440"]))
    if n == "double":
        return gen_float(src, src.pick(["1.7976931348623157e308", "1.797693134862315E+308", "17976931348623157" + "0" * 292]))
    if n == "date":
        return gen_ymd(src) + gen_tz(src)
    if n == "time":
        return gen_hms(src) + gen_tz(src)
    if n == "dateTime":
        return gen_ymd(src) + "T" + gen_hms(src) + gen_tz(src)
    if n == "gYear":
        return gen_year(src) + gen_tz(src)
    if n == "gYearMonth":
        return gen_year(src) + "-%02d" % src.int(1, 12) + gen_tz(src)
    if n == "gMonth":
        return "--%02d" % src.int(1, 12) + gen_tz(src)
    if n == "gDay":
        return "---%02d" % src.int(1, 31) + gen_tz(src)
    if n == "gMonthDay":
        m = src.int(1, 12)
        return "--%02d-%02d" % (m, src.pick([1, DAYS[m - 1], src.int(1, DAYS[m - 1])])) + gen_tz(src)
    if n == "duration":
        return gen_duration(src)
    if n == "hexBinary":
        return gen_hex(src)
    if n == "base64Binary":
        return gen_base64(src)
    if n == "anyURI":
        return gen_uri(src)
    raise AssertionError(t)


ODD = list("0123456789+-.:TZPYMDHSeEINFabcxn/=%#?@[]_,; ") + ["\n", "٣", "１", "é", "\u00a0", "\u2003", "\x0b", "infinity", "nan", "0x", "1_0", "--", "..", "24:00:00", "-02-29", "-02-30", "29", "30", "31", "32", "13", "00", "60", "14:01", "true", "True", "TRUE"]

TRICKY = {
    "boolean": ["True", "TRUE", "yes", "", "2", "01", "t", "FALSE", "10", "on"],
    "decimal": ["", ".", "+", "-", "1e5", "1,5", "1_000", "INF", "NaN", "0x1", "--1", "+-1", "1.2.3", "１", "1 2", "-.", "1e", "½"],
    "float": ["", ".", "+", "e5", "1e", "1e5.5", "inf", "nan", "Infinity", "-NaN", "+NaN", "INFINITY", "1_0.5", "1e39", "3.5e38", "-1e39", "0x1p3", "1e1_0", "1f", "340282346638528859811704183484516925441e1"],
    "double": ["", ".", "+", "e5", "1e", "1e5.5", "inf", "nan", "Infinity", "-NaN", "INFINITY", "1_0.5", "1e309", "-1e309", "1.8e308", "1d", "0x1", "1e1e1"],
    "date": ["2023-02-29", "1900-02-29", "2000-02-29", "2024-02-30", "2024-13-01", "2024-00-10", "2024-01-00", "2024-01-32", "2024-1-1", "24-01-01", "0000-01-01", "-0001-02-29", "-0004-02-29", "-0005-02-29", "02024-01-01", "2024-01-01T00:00:00", "2024-01-01+14:01", "2024-01-01+15:00", "2024-01-01z", "2024-04-31", "2024/01/01", "+2024-01-01", "12024-02-29", "12023-02-29", "2100-02-29", "2400-02-29", "", "2024-01-01-00:00", "2024-01-01+13:60"],
    "time": ["24:00:01", "24:01:00", "24:00:00.1", "25:00:00", "23:60:00", "23:59:60", "1:00:00", "12:00", "12:00:00.", "12:00:00,5", "12:00:00+14:30", "", "T12:00:00", "120000", "12:00:00 Z", "23:59:59.999999999999999999"],
    "dateTime": ["2024-01-01", "2024-01-01T24:00:01", "2024-01-01 00:00:00", "2024-01-01t00:00:00", "2023-02-29T00:00:00", "2024-01-01T25:00:00", "2024-01-01T00:00", "2024-01-01T00:00:00.", "2024-01-01T00:00:00+1:00", "2024-01-01T00:00:00ZZ", "", "0000-01-01T00:00:00Z", "2024-01-01T00:00:00+14:01", "2024-01-01T24:00:00.0Z", "2024-01-01TT00:00:00", "2024-02-30T00:00:00"],
    "gYear": ["24", "02024", "", "2024-", "+2024", "2024-01", "20 24", "-", "2024Z0", "2024+14:01", "--2024", "-02024"],
    "gYearMonth": ["2024-13", "2024-00", "2024", "2024-1", "2024-01-01", "02024-01", "", "2024-01+15:00", "2024--01"],
    "gMonth": ["--13", "--00", "-01", "---01", "--1", "--01--", "", "01", "--01-01"],
    "gDay": ["---32", "---00", "--01", "---1", "----01", "", "01", "---01-"],
    "gMonthDay": ["--02-30", "--02-29", "--04-31", "--13-01", "--01-32", "--01-00", "--1-1", "-01-01", "", "--0101", "--06-31", "--09-31", "--11-31", "--12-31"],
    "duration": ["P", "PT", "P1", "P1S", "PT1Y", "P1YT", "P1M1Y", "P1D1M", "-", "", "P-1D", "+P1D", "PT1.5M", "PT1.S", "PT.5S", "P1.5D", "p1d", "P1W", "PT1M1H", "PT1S1M", "P1Y1Y", "--P1D", "P 1D", "PT5", "P1DT"],
    "hexBinary": ["0", "abc", "0g", "0x12", "12 34", "１２", "G0", "-1", "1_2f"],
    "base64Binary": ["A", "AA", "AAA", "AAA=A", "====", "=", "AA=", "A===", "AAAA=", "AA==AA==", "AAA-", "AA_A", "ÄAAA", "AAAA====", "=AAA", "AAAAA"],
    "anyURI": ["%", "%1", "%gg", " ", "a b", "http://[::1", "http://[1::2::3]", "http://[12345::]", "http://[1:2:3:4:5:6:7]", "http://[::256.1.1.1]", "://x", "1a:b", ":a", "a^b", "a|b", "a\\b", "{x}", "<x>", '"', "http://a:b", "http://a:80x", "#a#b", "http://a@b@c", "`", "http://[v.x]", "http://[vg.x]", "a\nb", "\ue000", "x#\ue000", "x?\ue000", "\ufdd0", "\U0001fffe", "//a\u2028", "http://[::1]x", "a[b", "http://[1:2:3:4:5:6:7:8:9]", "http://[:1]", "http://[1:::2]", "http://[::1.2.3]", "\x7f"],
}
for _n, (_lo, _hi) in BOUNDS.items():
    TRICKY[_n] = ["", "+", "-", "1.0", "1e3", "1_0", "0x1", "１", "٣", "--1", "+-1", "1 0", "NaN", "-0", "+0", "1.", ".1", "²"]
    TRICKY[_n] += [str(_lo - 1), str(_lo), "-0" + str(abs(_lo - 1))] if _lo is not None else ["-" + "9" * 5000]
    TRICKY[_n] += [str(_hi + 1), str(_hi), "+" + str(_hi + 1), "0" * 5000 + str(_hi), "9" * 5000] if _hi is not None else ["9" * 5000]


def mutate_text(src, s, odd=ODD):
    """a small edit of s"""
    for _ in range(src.size(1, 3, 0.3)):
        k = src.draw(5)
        i = src.draw(len(s))
        if k == 0 and s:
            i = min(i, len(s) - 1)
            s = s[:i] + s[i + 1 :]
        elif k == 1:
            s = s[:i] + src.pick(odd) + s[i:]
        elif k == 2 and s:
            i = min(i, len(s) - 1)
            s = s[:i] + src.pick(odd) + s[i + 1 :]
        elif k == 3 and len(s) > 1:
            i = min(i, len(s) - 2)
            s = s[:i] + s[i + 1] + s[i] + s[i + 2 :]
        elif k == 4 and s:
            i = min(i, len(s) - 1)
            s = s[:i] + s[i] + s[i:]
        else:
            j = src.draw(len(s))
            s = s[: min(i, j)] + s[max(i, j) :]
    return s


def lengthen(src, s):
    """repeats one character or a few characters of s many times: most literals have parts which may be of any length"""
    if not s:
        return s
    i = src.draw(len(s) - 1)
    w = src.pick([1, 1, 1, 2, 4])
    n = src.pick([8, 16, 20, 32, 40, 60, 64, 100, 128, 255, 256, 1000, 4096])
    return s[:i] + s[i : i + w] * n + s[i + w :]


SPOIL = ["!", "-", "x", " ", "\x00", "\n", "é", "%", ":", "[", "Z", "@", "#", '"', ";", "=", "/"]


def spoil(src, s):
    """a very long text, probably spoiled by a character towards its end: expensive for ambiguous patterns"""
    s = lengthen(src, s)
    c = src.pick(SPOIL)
    k = src.draw(3)
    if k == 0:
        return s
    if k == 1:
        return s + c
    if k == 2:
        i = len(s) - src.draw(min(8, len(s)))
        return s[:i] + c + s[i:]
    return c + s


def gen_near(src, t, wild=True):
    """a string which may or may not be a literal of the type"""
    n = t[3:]
    k = src.draw(9)
    if src.bool(0.04):
        return lengthen(src, gen_xsd(src, t, wild))
    if k <= 2:
        return gen_xsd(src, t, wild)
    if k <= 6:
        return mutate_text(src, gen_xsd(src, t, wild))
    if k == 7 and n in TRICKY:
        return src.pick(TRICKY[n])
    if k == 8:
        return gen_xsd(src, src.pick(XSD_TYPES), wild)
    return src.chars(ODD, 0, 6)


# ---------------------------------------------------------------- language tags (BCP 47)

IRREGULAR = ["en-GB-oed", "i-ami", "i-bnn", "i-default", "i-enochian", "i-hak", "i-klingon", "i-lux", "i-mingo", "i-navajo", "i-pwn", "i-tao", "i-tay", "i-tsu", "sgn-BE-FR", "sgn-BE-NL", "sgn-CH-DE"]
REGULAR = ["art-lojban", "cel-gaulish", "no-bok", "no-nyn", "zh-guoyu", "zh-hakka", "zh-min", "zh-min-nan", "zh-xiang"]


def is_lang(s):
    if s in IRREGULAR or s in REGULAR:
        return True
    t = s.split("-")
    if not all(1 <= len(x) <= 8 and all_in(x, ALNUM) for x in t):
        return False

    def alpha(x):
        return all_in(x, LETTERS)

    def private(i):
        return i < len(t) and t[i] in ("x", "X") and len(t) > i + 1

    def langtag():
        if not alpha(t[0]) or len(t[0]) < 2:
            return False
        i = 1
        if len(t[0]) <= 3:
            n = 0
            while n < 3 and i < len(t) and len(t[i]) == 3 and alpha(t[i]):
                i += 1
                n += 1
        if i < len(t) and len(t[i]) == 4 and alpha(t[i]):
            i += 1
        if i < len(t) and ((len(t[i]) == 2 and alpha(t[i])) or (len(t[i]) == 3 and digits(t[i]))):
            i += 1
        while i < len(t) and (5 <= len(t[i]) <= 8 or (len(t[i]) == 4 and t[i][0] in DIGITS)):
            i += 1
        while i < len(t) and len(t[i]) == 1 and t[i] not in "xX":
            i += 1
            n = 0
            while i < len(t) and 2 <= len(t[i]) <= 8:
                i += 1
                n += 1
            if n == 0:
                return False
        if i < len(t):
            return private(i)
        return True

    if langtag() or private(0):
        return True
    if s.lower() in [x.lower() for x in IRREGULAR + REGULAR]:
        return None  # grandfathered tags in another case
    return False


def gen_lang(src):
    k = src.draw(7)
    if k <= 2:
        return src.pick(["en", "de", "fr", "en-US", "de-AT", "EN", "zh-Hans-CN", "sr-Latn"])
    if k == 3:
        return src.pick(IRREGULAR + REGULAR)
    if k == 4:
        return src.pick("xX") + "".join("-" + src.chars(ALNUM, 1, 8, 0.6) for _ in range(src.size(1, 3)))

    def exactly(alphabet, n):
        return "".join(src.pick(alphabet) for _ in range(n))

    n = src.int(2, 8)
    s = exactly(LETTERS, n)
    if n <= 3 and src.bool(0.3):
        s += "".join("-" + exactly(LETTERS, 3) for _ in range(src.int(1, 3)))
    if src.bool(0.3):
        s += "-" + exactly(LETTERS, 4)
    if src.bool(0.4):
        s += "-" + (exactly(LETTERS, 2) if src.bool() else exactly(DIGITS, 3))
    if src.bool(0.3):
        for _ in range(src.size(1, 6)):
            s += "-" + (exactly(ALNUM, src.int(5, 8)) if src.bool() else src.pick(DIGITS) + exactly(ALNUM, 3))
    if src.bool(0.2):
        for _ in range(src.size(1, 5)):
            s += "-" + src.pick("abuwtyz0129ABT") + "".join("-" + exactly(ALNUM, src.int(2, 8)) for _ in range(src.size(1, 6)))
    if src.bool(0.2):
        s += "-" + src.pick("xX") + "".join("-" + exactly(ALNUM, src.int(1, 8)) for _ in range(src.size(1, 6)))
    return s


# ---------------------------------------------------------------- media types

TCHAR = ALNUM + "!#$%&'*+-.^_`|~"


def is_mime(s):
    i = 0

    def token(i):
        n = i
        while n < len(s) and s[n] in TCHAR:
            n += 1
        return n

    def ows(i):
        while i < len(s) and s[i] in " \t":
            i += 1
        return i

    j = token(i)
    if j == i or s[j : j + 1] != "/":
        return False
    i = j + 1
    j = token(i)
    if j == i:
        return False
    i = j
    while i < len(s):
        i = ows(i)
        if s[i : i + 1] != ";":
            return False
        i = ows(i + 1)
        j = token(i)
        if j == i or s[j : j + 1] != "=":
            return False
        i = j + 1
        if s[i : i + 1] == '"':
            i += 1
            while True:
                if i >= len(s):
                    return False
                c = s[i]
                if c == '"':
                    i += 1
                    break
                if c == "\\":
                    i += 1
                    if i >= len(s):
                        return False
                    c = s[i]
                    if not (c == "\t" or " " <= c <= "~" or "\x80" <= c <= "\xff"):
                        return False
                    i += 1
                    continue
                if not (c in "\t !" or "#" <= c <= "[" or "]" <= c <= "~" or "\x80" <= c <= "\xff"):
                    return False
                i += 1
        else:
            j = token(i)
            if j == i:
                return False
            i = j
    return True


def gen_mime(src):
    if src.bool(0.4):
        return src.pick(["application/pdf", "image/png", "text/plain", "application/json", "application/vnd.ms-excel", "text/html;charset=utf-8", "application/asset-administration-shell-package+xml"])
    s = src.chars(TCHAR, 1, 8) + "/" + src.chars(TCHAR, 1, 8)
    for _ in range(src.size(0, 2, 0.4)):
        s += src.pick(["", " ", "\t", "  "]) + ";" + src.pick(["", " ", "\t"]) + src.chars(TCHAR, 1, 5) + "="
        if src.bool():
            s += src.chars(TCHAR, 1, 5)
        else:
            s += '"' + "".join(src.pick(["a", " ", "\t", "!", "\\\"", "\\\\", "~", "[", "]", "ä", "\\ ", ";", "/", "="]) for _ in range(src.size(0, 6, 0.6))) + '"'
    return s if len(s) <= 100 else "a/b"


# ---------------------------------------------------------------- restricted strings of the meta-model

TEXT_RULES = {
    "id": 2000, "name": 128, "label": 64, "topic": 255, "value2000": 2000, "nonempty": None, "blob": None,
    "text128": 128, "text1023": 1023, "text255": 255, "text18": 18,
}


def is_version(s):
    return digits(s) and len(s) <= 4 and (s == "0" or s[0] != "0")


def is_id_short(s):
    return 1 <= len(s) <= 128 and s[0] in LETTERS and all_in(s, ALNUM + "_")


def rule_ok(rule, s):
    """whether a string attribute with this rule may have the value s"""
    if not xml_string(s):
        return False
    if rule in TEXT_RULES:
        top = TEXT_RULES[rule]
        return len(s) >= 1 and (top is None or len(s) <= top)
    if rule == "idshort":
        return is_id_short(s)
    if rule in ("version", "revision"):
        return is_version(s)
    if rule == "ctype":
        return 1 <= len(s) <= 100 and is_mime(s)
    if rule == "path":
        return 1 <= len(s) <= 2000 and is_any_uri(s)
    if rule == "datetime":
        return is_date_time(s)
    if rule == "duration":
        return is_duration(s)
    if rule == "lang":
        return is_lang(s)
    if rule == "category_data":
        return s in ("CONSTANT", "PARAMETER", "VARIABLE")
    raise AssertionError(rule)


def gen_rule(src, rule, wild=True):
    if rule in TEXT_RULES:
        top = TEXT_RULES[rule]
        if rule == "blob":
            return gen_base64(src, 1)
        if wild and src.bool(0.02) and top:
            return "x" * src.pick([top, top - 1])
        if wild and top and top >= 64 and src.bool(0.05):
            return src.pick(["urn:", "x ", "ä"]) + src.pick("az0") * (src.int(60, min(top, 300)) - 8) + src.chars(ALNUM, 1, 4)
        if rule == "id" and not src.bool(0.3 if wild else 0):
            return src.pick(["https://example.com/ids/", "urn:x:", "0173-1#02-AAO677#002", "id-"]) + src.chars(ALNUM, 1, 8)
        return gen_text(src, 1, min(top or 12, 12), wild)
    if rule == "idshort":
        s = src.pick(LETTERS) + src.chars(ALNUM + "_", 0, 10)
        if wild and src.bool(0.06):
            s = s[0] + src.pick("aZ_0") * (src.pick([64, 128, 127, 63, 65, 100]) - len(s)) + s[1:]
        return s
    if rule in ("version", "revision"):
        return src.pick(["0", "1", "9", "10", "99", "999", "9999", str(src.int(0, 9999))])
    if rule == "ctype":
        return gen_mime(src)
    if rule == "path":
        return gen_uri(src) or "a"
    if rule == "datetime":
        return gen_xsd(src, "xs:dateTime")
    if rule == "duration":
        return gen_duration(src)
    if rule == "lang":
        return gen_lang(src)
    if rule == "category_data":
        return src.pick(["CONSTANT", "PARAMETER", "VARIABLE"])
    raise AssertionError(rule)


NON_XML = ["\x00", "\x01", "\x08", "\x0b", "\x0c", "\x0e", "\x1f", "\ufffe", "\uffff", "\ud800", "\udfff", "\x1b"]


def gen_rule_near(src, rule):
    """a string which may or may not obey the rule"""
    k = src.draw(9)
    if k == 0:
        return gen_rule(src, rule)
    if k == 1:
        s = gen_rule(src, rule)
        i = src.draw(len(s))
        return s[:i] + src.pick(NON_XML) + s[i:]
    top = TEXT_RULES.get(rule)
    if rule in ("idshort",):
        top = 128
    if rule == "ctype":
        top = 100
    if rule == "path":
        top = 2000
    if rule in ("version", "revision"):
        top = 4
    if k in (2, 3) and top:
        n = top + src.pick([0, 1, -1, 2, 1])
        fill = src.pick(["a", "Z", "\U0001F600", "é"]) if rule not in ("version", "revision") else src.pick("19")
        if rule == "ctype":
            return "a/" + "b" * (n - 2)
        if rule in ("idshort", "path"):
            fill = "a"
        return fill * n
    if k == 4:
        return ""
    if rule == "idshort":
        return mutate_text(src, gen_rule(src, rule), list("_09azAZ -.ä\n$ß") + ["K", "ı"])
    if rule in ("version", "revision"):
        return mutate_text(src, gen_rule(src, rule), list("0123456789+-. v") + ["\n", "１"])
    if rule == "ctype":
        return mutate_text(src, gen_rule(src, rule), list("/;=\" \ta*(),:\\") + ["\n", "ä", "Ā", "\x7f"])
    if rule == "path":
        return gen_near(src, "xs:anyURI")
    if rule == "datetime":
        return gen_near(src, "xs:dateTime")
    if rule == "duration":
        return gen_near(src, "xs:duration")
    if rule == "lang":
        return mutate_text(src, gen_rule(src, rule), list("-_aA1xX ") + ["\n", "ä", "abcde", "abcdefghi", "-x", "-a", "１"])
    if rule == "category_data":
        return mutate_text(src, gen_rule(src, rule), list("aA _"))
    return mutate_text(src, gen_rule(src, rule), WILD + NON_XML)


# ---------------------------------------------------------------- enumerated edges
# Every field of a literal at each of its values, every class of characters at its ends, every structure up to a size:
# what random edits reach only with luck.

_RANGES = [(0xA0, 0xD7FF), (0xE000, 0xF8FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFEF), (0xE1000, 0xEFFFD)]
_RANGES += [(p << 16, (p << 16) + 0xFFFD) for p in range(1, 17)]
EDGE_CHARS = [chr(o) for o in sorted({o + d for lo, hi in _RANGES for o in (lo, hi) for d in (-32, -16, -2, -1, 0, 1, 2, 16, 32)} | {0x130, 0x131, 0x17F, 0x212A, 0x660, 0xFF11})
              if 0 <= o <= 0x10FFFF and not 0xD800 <= o <= 0xDFFF]
ASCII = [chr(o) for o in range(0x20, 0x80)]


def _fields(s):
    """every pair of digits of s replaced by 00 ... 99"""
    out = []
    for m in re.finditer("(?<![0-9])[0-9]{2}(?![0-9])", s):
        out += [s[: m.start()] + "%02d" % v + s[m.end() :] for v in range(100)]
    return out


def _chars_at(s, chars):
    """chars inserted at each place of s and instead of each character of it"""
    out = []
    for i in range(len(s) + 1):
        out += [s[:i] + c + s[i:] for c in chars]
        if i < len(s):
            out += [s[:i] + c + s[i + 1 :] for c in chars]
    return out


def _edge_times(t):
    zones = ["", "+05:30", "-05:30", "+14:00", "-13:59"]
    stamp = {"time": ["11:12:13", "11:12:13.5"], "date": ["2024-06-15"], "dateTime": ["2024-06-15T11:12:13", "2024-06-15T11:12:13.25"],
             "gYear": ["2024"], "gYearMonth": ["2024-06"], "gMonth": ["--06"], "gDay": ["---15"], "gMonthDay": ["--06-15", "--02-15"]}[t]
    out = []
    for s in stamp:
        for z in zones:
            out += _fields(s + z)
        if ":" in s:
            d = s[: s.index("T") + 1] if "T" in s else ""
            out += [d + x + z for x in ("24:00:00", "24:00:00.0", "24:00:00.00", "24:00:00.1", "24:00:01", "24:01:00", "24:00:00.", "00:00:00", "23:59:59.999") for z in zones + ["Z"]]
            out += [d + "11:12:13." + f for f in [str(i) for i in range(100)] + ["0" * i for i in range(1, 12)] + ["1" * i for i in range(1, 12)]]
        for z in ("Z", "-11:12"):
            out += _chars_at(s + z, list("019-+:.TZz "))
    if "Y" in t or "date" in t:
        rest = {"gYear": "", "gYearMonth": "-06", "date": "-06-15", "dateTime": "-06-15T11:12:13"}[t]
        years = ["%d" % 10**k for k in range(9)] + ["9" * k for k in range(1, 9)] + ["0" * k + "1" for k in range(9)] + ["0" * k for k in range(1, 7)] + ["%04d" % y for y in range(0, 30)]
        out += [sign + y + rest for y in years for sign in ("", "-", "+")]
    return out


def _edge_durations():
    units = ["Y", "M", "D", "TH", "TM", "TS"]
    out = []
    for mask in range(64):
        parts = [u for i, u in enumerate(units) if mask >> i & 1]
        date = "".join("1" + u for u in parts if u[0] != "T")
        time = "".join("1" + u[1] for u in parts if u[0] == "T")
        for neg in ("", "-"):
            out += [neg + "P" + date + ("T" + time if time else ""), neg + "P" + date + "T" + time, neg + "P" + date + time]
        if time.endswith("1S"):
            out.append("P" + date + "T" + time[:-2] + "1.5S")
        for v in ("0", "9", "10", "99", "1234567890"):
            out.append("P" + "".join(v + u for u in parts if u[0] != "T") + ("T" if time else "") + "".join(v + u[1] for u in parts if u[0] == "T"))
            if time.endswith("1S"):
                out.append("P" + date + "T" + time[:-2] + f"{v}.{v}S")
    for a in "YMDHMST":
        for b in "YMDHMST":
            out += [f"P1{a}1{b}", f"PT1{a}1{b}", f"P1{a}T1{b}", f"P1.5{a}", f"PT1.5{b}"]
    return out + _chars_at("P1Y2M3DT4H5M6.7S", list("1.-+PTYMDHSW "))


def _edge_uris():
    spots = ["{}", "a{}b", "{}:b", "a{}b:c", "//{}", "//h{}x", "//u{}x@h", "//h:8{}", "/p{}q", "s:p{}q", "p/{}/q", "x?q{}r", "x#f{}g", "//h?{}", "//h#{}", "%{}0", "%0{}", "x?%{}a", "x#%a{}", "//%{}f", "//[v1.a{}]", "//[v{}.a]", "//[::{}]", "//[1{}::]"]
    out = [s.format(c) for s in spots for c in ASCII]
    out += [s.format(c) for s in spots if "%" not in s for c in EDGE_CHARS]
    out += ["http://[::%s]" % ".".join("1" if i != k else str(o) for i in range(4)) for k in range(4) for o in list(range(0, 301, 1 if k == 0 else 7)) + [9, 10, 19, 20, 29, 99, 100, 109, 199, 200, 209, 249, 250, 255, 256, 260, 299, 999, 1000, "00", "01", "001", "010", ""]]
    for a in range(10):
        for b in range(10):
            for v4 in (False, True):
                for word in ("1", "abCD", "12345"):
                    left = [word] * a
                    right = [word] * b + (["1.2.3.4"] if v4 else [])
                    out.append("//[" + ":".join(left) + "::" + ":".join(right) + "]")
                    if b == 0:
                        out.append("//[" + ":".join(left + right) + "]")
    out += ["//h:" + p for p in ("", "0", "65535", "65536", "00000080", "-1", "+1", "8 0", "٣")]
    return out


def edges(t):
    """enumerated strings for the type t (xs:...)"""
    n = t[3:]
    if n in ("date", "time", "dateTime", "gYear", "gYearMonth", "gMonth", "gDay", "gMonthDay"):
        return _edge_times(n)
    if n == "duration":
        return _edge_durations()
    if n == "anyURI":
        return _edge_uris()
    if n == "hexBinary":
        return _chars_at("0aF9", ASCII[::1] + ["é", "１"])
    if n == "base64Binary":
        return ["A" * i + c + "A" * (3 - i) for i in range(4) for c in ASCII] + ["A" * k + "=" * m for k in range(10) for m in range(5)] + _chars_at("QUJDRA==", list("=Az+/-_"))
    if n == "boolean":
        return _chars_at("true", list("tTrR01 ")) + _chars_at("false", list("fF01")) + [str(i) for i in range(12)] + _chars_at("1", ASCII)
    if n in ("decimal", "float", "double"):
        out = _chars_at("-1.5", ASCII) + _chars_at("12", ASCII)
        out += [x + m for m in [str(i) for i in range(10)] + [f".{i}" for i in range(100)] + [f"{i}." for i in range(10)] + [f"{i}.{j}" for i in range(10) for j in range(10)] for x in ("", "+", "-")]
        if n != "decimal":
            out += _chars_at("1.5E-10", ASCII) + _chars_at("INF", list("IiNnF+-1")) + _chars_at("NaN", list("NnaA+-1"))
            out += ["%se%d" % (m, e) for m in ("1", "9.99", "3.4028234", "3.4028236", "3.4028234663852886", "1.7976931348623157", "1.7976931348623159", "0") for e in list(range(-330, -300, 5)) + list(range(-50, -35)) + list(range(30, 42)) + list(range(300, 312)) + [400, 999999, -999999]]
        return out
    if n in BOUNDS:
        out = _chars_at("-1", ASCII) + _chars_at("12", list("+-.eE 0"))
        for lo, hi in BOUNDS.values():
            for b in (lo, hi):
                if b is not None:
                    out += [str(b + d) for d in (-10, -2, -1, 0, 1, 2, 10)]
        return out + [str(s * 10**k + d) for s in (1, -1) for k in range(0, 24) for d in (-1, 0, 1)]
    return []


def _edge_langs():
    out = []
    kinds = {"a": "abcdefghijk", "0": "12345678901", "m": "a1b2c3d4e5f", "n": "1abcdefghij"}
    spots = ["{}", "{}-DE", "en-{}", "en-{}-US", "en-abc-{}", "en-abc-def-{}", "en-abc-def-ghi-{}", "en-Latn-{}", "en-Latn-US-{}", "en-US-{}-abcdef", "en-US-12ab-{}", "en-u-{}", "en-u-ab-{}", "en-u-ab-cd-{}", "en-a-bc-x-{}", "en-x-{}", "en-x-a-{}", "x-{}", "x-abc-{}", "X-{}", "de-US-a-{}-b-cd", "i-{}", "abcd-{}", "abcdef-{}", "en-{}-x-y", "en-{}-u-ab"]
    for s in spots:
        for k in kinds.values():
            out += [s.format(k[:n]) for n in range(11)]
        out += [s.format(c) for c in ASCII]
    for tag in IRREGULAR + REGULAR:
        out += [tag, tag + "-x", tag + "-x-y", tag[:-1], tag + "x", tag.replace("-", "_"), "x-" + tag]
    return out + _chars_at("de-DE", list("-aZ1_ ") + ["é", "１"])


def _edge_mimes():
    chars = [chr(o) for o in range(0x00, 0x180)] + ["\u2028", "中", "\U00010000"]
    spots = ["{}/b", "a{}/b", "a/{}", "a/b{}", "a/b{};c=d", "a/b;{}c=d", "a/b;c{}=d", "a/b;c={}", "a/b;c=d{}", "a/b;c={}d", 'a/b;c="{}"', 'a/b;c="\\{}"', 'a/b;c="d"{}', "a/b{}", "a/b; c=d;{}e=f"]
    return [s.format(c) for s in spots for c in chars] + _chars_at('a/b; c="d"; e=f', list('/;="\\ \t'))


def rule_edges(rule):
    """enumerated strings for a restricted string"""
    if rule == "lang":
        return _edge_langs()
    if rule == "ctype":
        return _edge_mimes()
    if rule == "path":
        return _edge_uris()
    if rule == "datetime":
        return _edge_times("dateTime")
    if rule == "duration":
        return _edge_durations()
    if rule == "idshort":
        return _chars_at("aB_9", ASCII + ["é", "ß", "１", "\u212a", "\u0131", "\n"]) + ASCII
    if rule in ("version", "revision"):
        return [str(v) for v in range(0, 10200, 37)] + ["%02d" % v for v in range(100)] + ["%03d" % v for v in range(0, 1000, 7)] + ["%04d" % v for v in range(0, 1000, 37)] + ["%05d" % v for v in range(0, 100000, 997)] + _chars_at("12", ASCII + ["\n", "１", "٣"])
    if rule == "category_data":
        return _chars_at("CONSTANT", list("Cc _S")) + ["CONSTANTPARAMETER", "constant", "VARIABLE", "PARAMETER", ""]
    return []
