"""Access to the code under test, through its public interface only."""
from mc.engine import Bad
from mc.ref import onmatch_of, rule_of

_g = {}


def GT():
    if "GT" not in _g:
        import graphtransliterator

        _g["mod"] = graphtransliterator
        _g["GT"] = graphtransliterator.GraphTransliterator
    return _g["GT"]


def mod():
    GT()
    return _g["mod"]


def bundled():
    import graphtransliterator.transliterators

    return graphtransliterator.transliterators


def build(cfg, how={}, **kw):
    kw.setdefault("check_ambiguity", False)
    return GT().from_dict(cfg.settings(**how), **kw)


def index_map(gt, cfg):
    """For each index into gt.rules, the index into cfg.rules (contents must agree)."""
    rules = gt.rules
    if len(rules) != len(cfg.rules):
        raise Bad("transliterator has %d rules, settings %d" % (len(rules), len(cfg.rules)), cfg=cfg)
    where = {}
    for k, r in enumerate(cfg.rules):
        where.setdefault(r, []).append(k)
    out = []
    for x in rules:
        r = rule_of(x)
        if not where.get(r):
            raise Bad("transliterator has a rule not in the settings", cfg=cfg, rule=x)
        out.append(where[r].pop(0))
    return out


class Pool:
    """Library rules and on-match rules made once from settings, reused by the constructor.

    Sub-configurations are then built directly, rules sorted by cost as documented."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.gt = build(cfg)
        self.m = index_map(self.gt, cfg)  # gt index -> cfg index
        self.rank = {k: i for i, k in enumerate(self.m)}  # cfg index -> gt index

    def sub(self, ks, onmatch=None, **kw):
        """(transliterator, cfg) with the rules with indexes ks in self.cfg."""
        order = sorted(ks, key=lambda k: self.rank[k])
        rules = [self.gt.rules[self.rank[k]] for k in order]
        kw.setdefault("check_ambiguity", False)
        oms = self.gt.onmatch_rules
        if onmatch is not None:
            oms = [self.gt.onmatch_rules[k] for k in onmatch] or None
        g = GT()(self.gt.tokens, rules, self.gt.whitespace, onmatch_rules=oms, **kw)
        cfg = self.cfg.replace(
            rules=[self.cfg.rules[k] for k in order],
            onmatch=self.cfg.onmatch if onmatch is None else [self.cfg.onmatch[k] for k in onmatch],
        )
        return g, cfg


def outcome(fn, *args, **kw):
    """('ok', value) or ('exc', exception class name)."""
    try:
        return ("ok", fn(*args, **kw))
    except Exception as e:
        return ("exc", type(e).__name__)


def same_rules(gt):
    return [rule_of(r) for r in gt.rules]


def onmatch_list(gt):
    return [onmatch_of(o) for o in (gt.onmatch_rules or [])]
