"""Arguments: documented restrictions are enforced, documented forms work."""
from .rules import Rule, exc_name


def kinds(h, key):
    """names of the exception class and of its base classes"""
    return {exc_name(h, a).rsplit(".", 1)[-1]
            for a in h.I.exc_ancestors(key, h.st)}


class Restrictions(Rule):
    name = "restrictions"
    text = ("abstract calls with arguments outside a documented restriction "
            "must have an exit with the documented exception; calls on the "
            "boundary inside it must have a normal exit")

    def on_call(self, h, rec):
        for t in rec.tags:
            if t.startswith("rejects:"):
                self.rejected(h, rec, set(t[8:].split(",")))
            elif t == "accepts":
                self.oblige(1, f"{rec.entry}: accepts {rec.label}")
                ex = sorted({exc_name(h, k) for k in rec.exc if k != "*"})
                if rec.ret is None and ex:
                    self.report(h, "refused", f"{rec.label} is refused "
                                f"({', '.join(ex)})", None)

    def rejected(self, h, rec, want):
        self.oblige(1, f"{rec.entry}: rejects {rec.label}")
        ex = {exc_name(h, k) for k in rec.exc if k != "*"}
        if any(kinds(h, k) & want for k in rec.exc if k != "*"):
            return
        if rec.ret is not None:
            self.report(h, "accepted", f"{rec.label} does not raise "
                        f"{' or '.join(sorted(want))}", None)
        elif ex and "*" not in rec.exc:
            self.report(h, "other error", f"{rec.label} raises "
                        f"{', '.join(sorted(ex))} instead of "
                        f"{' or '.join(sorted(want))}", None)
