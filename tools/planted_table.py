"""Prints the planted-bug table of DESIGN.md from seeded/*/meta.json."""
import json
import os

ROOT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
MISSED = set("""c01-same-first-point d01-median-sampled k03-target-blocks k04-capped-variance p01-prefix-text
p03-concat-alias s02-first-shard-gap s05-lost-coverage s06-unit-floor g01-int-dtype g02-unweighted-draw
g02-same-values x01-reordered-columns x03-leading-points x03-level-count m03-last-step m04-ess-underflow
m05-tiny-bandwidth m06-inf-criterion m07-mean-estimate x06-half-open x07-in-place x07-batch-exponent
x01-small-numbers x08-largest-anchor k01-reused-trend k06-contrast-cache k05-rescued m03-variance-mean s05-information-power x05-recorded-model
x05-reference-of-fit x08-recorded-criterion""".split())


def table(missed=MISSED):
    out = ["| planted bug | check | needs | what breaks |", "|---|---|---|---|"]
    for i in sorted(os.listdir(ROOT)):
        m = json.load(open(os.path.join(ROOT, i, "meta.json")))
        out.append(f"| {i}{' *' if i in missed else ''} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
    return "\n".join(out)


if __name__ == "__main__":
    print(table())
