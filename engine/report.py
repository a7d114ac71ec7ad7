"""Obligations and their verdicts."""
PROVED, REFUTED, UNDECIDED = 'proved', 'refuted', 'undecided'


class Obligation:
    __slots__ = ('props', 'rule', 'status', 'where', 'msg', 'detail')

    def __init__(self, props, rule, status, where, msg, detail):
        self.props = props
        self.rule = rule
        self.status = status
        self.where = where
        self.msg = msg
        self.detail = detail


class Report:
    def __init__(self):
        self.obs = []
        self.functions = set()
        self.paths = 0
        self.errors = []
        self.notes = []

    def merge(self, r):
        self.obs += r.obs
        self.functions |= r.functions
        self.paths += r.paths
        self.errors += r.errors
        self.notes += r.notes

    def ob(self, props, rule, ok, where, msg, detail=None):
        """ok: True (proved), False (refuted) or None (undecided)"""
        if isinstance(props, str):
            props = (props,)
        st = PROVED if ok is True else REFUTED if ok is False else UNDECIDED
        self.obs.append(Obligation(tuple(props), rule, st, where, msg, detail))

    def absorb(self, I, outs=()):
        self.functions |= I.functions_seen
        self.paths += len(outs)
