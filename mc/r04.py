"""R04: the Rust that ort-rust writes lets roles do, enter and see what the
configuration says, and nothing else."""
import core, q, rgen
from r02 import R02
from r03 import R03


class R04(R03):
    id = "R04"
    rule = ("state = (configuration, role held, how it was reached); transition = one request for a role or one call of a generated Rust function in it; all "
            "sequences of requests to the stated depth over all roles and the built-in ones; distinct_nontrivial = distinct (configuration, "
            "sequence of requests that was granted)")
    assumptions = ["the crates ort-rust(1) names are stood in for by harness/rs", "role transitions as for ort-nodejs(1) and ort-c-header(1): "
                   "ort-rust(1) has the same text, commented out", "whether the default role has what is assigned to all is not judged"]

    def spaces(self, tier):
        return [(n, ts[::{"two": 2, "which": 2}.get(n, 1)] if tier == "quick" else ts, d) for n, ts, d in R03.spaces(self, tier)]

    def setup(self, bld, tier):
        rgen.crates()

    def prog(self, env, cfg, text):
        return rgen.Prog(env, cfg, text)

    def why(self, x):
        return rgen.text(x.get("abort", x.get("inrole", "")))

    def value(self, cfg, db, op, a, x, role):
        return q.judge(cfg, db, op, a, rgen.result(cfg, op, x, rgen.checker(cfg, op.result(), role)))

    def finish(self, env, acc, tier):
        rgen.evict()


if __name__ == "__main__":
    core.main(R04())
