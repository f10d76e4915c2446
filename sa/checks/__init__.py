"""property id -> check(program, tier) -> Result"""
CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


from . import codec_checks, wire_checks, model_checks, prim_checks, input_checks, geo_checks, misc_checks, fact_checks, example_checks  # noqa: E402,F401
