"""Packing events into trace parts and mapping rejections back."""
from . import env, schema, tlc


CAP = 1500000  # numbers in one part; more would not fit a TLC process


class TraceSet(object):
    """Collects (defs, event) pairs, deduplicating schema closures per part."""

    def __init__(self, parts=env.CORES):
        self.parts = [{"schemas": [], "ev": [], "extra": []} for _ in range(parts)]
        self.index = [{} for _ in range(parts)]
        self.n = 0

    def add(self, key, defs, events, extra=None):
        """key identifies the schema; all events share it.  Placed in the least loaded part."""
        p = min(range(len(self.parts)), key=lambda k: sum_size(self.parts[k]))
        if sum_size(self.parts[p]) > CAP:
            p = len(self.parts)
            self.parts.append({"schemas": [], "ev": [], "extra": []})
            self.index.append({})
        part = self.parts[p]
        if key not in self.index[p]:
            part["schemas"].append(defs)
            self.index[p][key] = len(part["schemas"])
        s = self.index[p][key]
        for e in events:
            e = dict(e)
            e["s"] = s
            part["ev"].append(e)
            part["extra"].append(extra)
            part["_w"] = part.get("_w", 0) + weight(e)
            self.n += 1

    def validate(self, module, **kw):
        used = [p for p in self.parts if p["ev"]]
        rej, stats = tlc.validate(module, [{"schemas": p["schemas"], "ev": p["ev"]} for p in used], **kw)
        out = []
        for pi, ei, why in rej:
            e = used[pi]["ev"][ei]
            mach = [w for w in why if w.startswith("MACHINERY")]
            if mach:
                raise env.MachineryError("%s: %s\n%s" % (mach, e, schema.render(used[pi]["schemas"][e["s"] - 1])))
            out.append((why, e, used[pi]["schemas"][e["s"] - 1], used[pi]["extra"][ei]))
        return out, stats


def sum_size(part):
    return part.get("_w", 0)


def weight(e):
    return 20 + sum(len(x) for x in e.values() if isinstance(x, list))


def replay(why, event, defs, extra=None):
    return {"reasons": why, "schema": schema.render(defs), "event": event, "extra": extra}
