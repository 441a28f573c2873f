"""C11: copy_from yields an equal, fully independent message."""
import random

from .. import check, codec_py, env, gen, schema
from . import c10


def copying(e, why):
    """Other operations belong to C10; after a mismatch the history is no longer followed."""
    return e["k"] == "copy" or e["op"] in ("extendc", "selfextend") and e.get("comp") or "another message changed" in why


def body(c):
    rng = random.Random(env.SEED + 111)
    programs = gen.pair_programs(rng, 16, 80 if env.THOROUGH else 12)
    programs += gen.random_programs(rng, 320 if env.THOROUGH else 64, merge=4, names=codec_py.odd_names())
    c.count("struct_types", sum(len(p.types) for p in programs))
    c10.run(c, programs, (6 if env.THOROUGH else 2, 40, 3, 0.3, 0), copying)
    for p in programs[:2]:
        c.sample({"schema": schema.render(schema.closure(p.info, p.types[0]))})


if __name__ == "__main__":
    check.main("C11", body)
