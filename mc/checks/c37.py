import copy
import itertools
import json

from mc.engine import Bad, Phase
from mc.impl import bundled, mod

ID = "C37"
LEVEL = "model_checking"
RULE = (
    "cases = sets of metadata fields x valid values, or x one or two faults; state = metadata; transition = one load on the implementation, compared with "
    "the verdict known by construction; traces = loads with the predicted verdict"
)
ASSUMPTIONS = [
    "whether description and version may be missing is not decided (the documentation and the schema disagree)",
    "values that the schema library converts without loss are no faults; addresses are plainly valid or plainly not",
    "scope: the fields and values listed in the check",
]

TEXTS = ["x", "", "a b", "\u0905\u0906", "1.0", "\n", "None", "x" * 50, "ab " * 60, "y" * 300, "\u0905" * 1100, "z" * 5000, "a\n" * 700]
URLS = ["http://www.a.org", "https://github.com/a/b-c", "https://a.co.uk/x?y=1&z=2#w", "http://a.org:8080/", "ftp://a.org/x", "http://a.org/" + "x" * 300, "http://a.org/x?" + "y=z&" * 700]
MAILS = ["a@b.org", "first.last@c.co.uk", "a+b@c-d.org", "a_1@b.org", "a" * 60 + "@b.org"]
BAD_TEXT = [None, 1, 1.5, True, [], {}, ["x"], {"x": "y"}]
BAD_URL = BAD_TEXT + ["", "x", "a.org", "http://", "http:/a.org", "://a.org", "http//a.org", "www.a.org/x", "http://a b.org", "mailto:a@b.org", "/x", "/x/y.html", "../x", "x/y", "?x=1", "#x", "//a.org/x", "javascript:x", "file:///x", "http://a.org\nx", " http://a.org"]
BAD_MAIL = BAD_TEXT + ["", "x", "a@", "@b.org", "a b@c.org", "a@b@c.org", "a@b..org", "http://a.org", "<a@b.org>", "a@b", "A B <a@b.org>", "a@b.org\n", " a@b.org", "a@b.org,c@d.org", "a@-b.org"]
BAD_KEYS = [None, 1, "x", True, {}, {"x": "y"}, [1], [None], ["a", 1], ["a", ["b"]], [{}], ["a", "b", None]]
BAD_PROJ = [None, 1, "http://a.org", True, [], ["http://a.org"], {"x": "y"}, {"x": None}, {"x": 1}, {"x": ""}, {"x": ["http://a.org"]},
            {"x": "http://a.org", "y": "z"}, {"y": "z", "x": "http://a.org"}, {1: "http://a.org"}, {None: "http://a.org"}]
GOOD = {
    "name": TEXTS, "description": TEXTS, "version": TEXTS, "url": URLS, "author": TEXTS, "author_email": MAILS, "maintainer": TEXTS, "maintainer_email": MAILS,
    "license": TEXTS, "keywords": [[], ["a"], ["", "a b", "\u0905"], ["a", "a"], ["x"] * 30, ["k%d" % i for i in range(300)], ["w" * 400]],
    "project_urls": [{}, {"x": URLS[0]}, {"": URLS[1], "\u0905 b": URLS[2]}, {str(i): URLS[i % 5] for i in range(20)}, {"p%d" % i: URLS[i % 5] for i in range(300)}, {"k" * 400: URLS[0]}],
}
FAULTS = dict.fromkeys(("name", "description", "version", "author", "maintainer", "license"), BAD_TEXT)
FAULTS.update(url=BAD_URL, author_email=BAD_MAIL, maintainer_email=BAD_MAIL, keywords=BAD_KEYS, project_urls=BAD_PROJ)
UNKNOWN = ["Name", "urls", "email", "zz", "", "keyword", "name ", "project_url", "_name"]
REQUIRED = ("name", "description", "version")
OPTIONAL = [k for k in GOOD if k not in REQUIRED]


def load(data, as_text):
    from marshmallow import ValidationError

    s = bundled().MetadataSchema()
    try:
        return "ok", s.loads(json.dumps(data)) if as_text else s.load(data)
    except ValidationError as e:
        return "refused", e.messages


def fields(bits, pick=0):
    names = list(REQUIRED) + [k for i, k in enumerate(OPTIONAL) if bits >> i & 1]
    return {k: copy.deepcopy(GOOD[k][(pick + i) % len(GOOD[k])]) for i, k in enumerate(names)}


def good(data, cov, info):
    before = copy.deepcopy(data)
    for as_text in (False, True):
        cov.add("transitions", 1)
        r = load(data, as_text)
        if r[0] != "ok":
            raise Bad("valid metadata is refused", metadata=before, messages=r[1], **info)
        if r[1] != before or any(type(r[1][k]) is not type(before[k]) for k in before):
            raise Bad("valid metadata is changed by loading", metadata=before, loaded=r[1], **info)
        d = bundled().MetadataSchema().dump(r[1])
        if d != before:
            raise Bad("valid metadata is changed by dumping", metadata=before, dumped=d, **info)
        if data != before:
            raise Bad("loading changes the metadata it is given", metadata=before, became=data, **info)
    cov.add("states", 1)
    cov.add("traces", 1)


def bad(data, wrong, cov, info):
    before = copy.deepcopy(data)
    for as_text in (False, True):
        if as_text and (None in wrong or any(not isinstance(k, str) for k in data.get("project_urls") or {}) if isinstance(data.get("project_urls"), dict) else None in wrong):
            continue  # JSON turns these keys into text
        cov.add("transitions", 1)
        r = load(data, as_text)
        if r[0] == "ok":
            raise Bad("invalid metadata is accepted", metadata=before, wrong=wrong, **info)
        if set(r[1]) != set(wrong):
            raise Bad("the refusal of metadata names other fields than the wrong ones", metadata=before, wrong=wrong, messages=r[1], **info)
        if data != before:
            raise Bad("loading changes the metadata it is given", metadata=before, became=data, **info)
    cov.add("states", 1)
    cov.add("traces", 1)


def run_good(case, cov):
    bits, pick = case
    good(fields(bits, pick), cov, {})


def run_value(case, cov):
    k, n = case
    for bits in (0, (1 << len(OPTIONAL)) - 1):
        d = fields(bits)
        d[k] = copy.deepcopy(GOOD[k][n])
        good(d, cov, {})
        good(dict(reversed(list(d.items()))), cov, {})


def singles():
    return [(k, n) for k in FAULTS for n in range(len(FAULTS[k]))] + [(k, -1) for k in UNKNOWN] + [("name", -2)]


def put(d, f):
    k, n = f
    if n == -2:
        d.pop(k, None)
    else:
        d[k] = "x" if n == -1 else copy.deepcopy(FAULTS[k][n])
    return k


def run_single(case, cov):
    bits, f = case
    d = fields(bits, bits)
    bad(d, [put(d, f)], cov, dict(fault=f))


def run_pair(case, cov):
    for other in singles():
        if other[0] == case[0]:
            continue
        for bits in (0, (1 << len(OPTIONAL)) - 1):
            d = fields(bits, 1)
            bad(d, [put(d, case), put(d, other)], cov, dict(faults=[case, other]))


def run_bundled(_, cov):
    """The metadata of every bundled transliterator, and each of its parts replaced by a wrong value."""
    for g in bundled().iter_transliterators():
        good(copy.deepcopy(g.metadata), cov, dict(of=type(g).__name__))
        for f in singles():
            d = copy.deepcopy(g.metadata)
            bad(d, [put(d, f)], cov, dict(of=type(g).__name__, fault=f))


def phases(tier):
    big = tier == "thorough"
    full = 1 << len(OPTIONAL)
    some = range(full) if big else [b for b in range(full) if bin(b).count("1") in (0, 1, 2, len(OPTIONAL) - 1, len(OPTIONAL))]
    return [
        Phase("valid", lambda: [(b, p) for b in range(full) for p in range(7 if big else 3)], run_good, note="every set of optional fields"),
        Phase("values", lambda: [(k, n) for k in GOOD for n in range(len(GOOD[k]))], run_value, note="every valid value of every field"),
        Phase("single", lambda: [(b, f) for b in some for f in singles()], run_single, note="one fault in every field of sets of fields"),
        Phase("pairs", singles, run_pair, cpu_limit=300, note="two faults"),
        Phase("bundled", lambda: [0], run_bundled, cpu_limit=300, note="metadata of the bundled transliterators"),
    ]
