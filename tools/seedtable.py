"""Rewrites the table of seeded bugs at the end of DESIGN.md.

    python3 tools/seedtable.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(HERE, "DESIGN.md")
HEAD = "## Seeded bugs\n"
INTRO = """
Each was confirmed with `python3 -m tools.plant --verify` (applies, stable
tests pass, demonstration fails only with it, the property's quick check
reports it) and is caught by the check of the property it names; those marked
+ were missed at first and led to the stronger workloads the checks now have.

| seeded bug | caught by | what it needs |
|---|---|---|
"""
MISSED = set("""
C17-mapregex-swap C32-leading-newline C33-eval-no-newline C08-history-global
C29-yank-history C10-till-empty-body C13-ninth-group C23-seed-hash
C28-index-start C23-format-leak C22-crlf-file C06-continuation-newline
C13-pattern-backref-two-digits C13-replacement-amp-double C13-copy-flags-cache C12-numequal-prefix C18-range-and-block C21-debug-format C24-verbose-warns C30-arg-interrupt C16-chain-truth C02-unary-paren-semi C09-assign-index-twice C20-destr-range C13-delete-class C13-findall-overlap C13-in-nested C19-leftof-nested C17-mapzip-lists C19-suffix-big C03-send-many C05-incomplete-else C05-namelist-paren C05-ternary-mid C30-loop-interrupt C06-help-eats-code C08-args-lval C10-lr-list-copy C11-sqrt-int C13-zipjoin-scalar C13-alternate-flags C14-trim-range-pair
C09-eval-index-twice C10-loop-count-live C22-dash-args C27-shuffle-last C27-randrange-lower
C10-loop-exponent C11-sign-tiny C13-at-pattern-falsy C13-trim-range-neg C17-mapunpack-nil C22-readlines-strip C26-contains-trunc C28-block-eq-len
""".split())


def main():
    rows = ""
    for n in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", n, "meta.json")))
        rows += (f"| {n}{' +' if n in MISSED else ''} | {m['property']} quick "
                 f"| {m['needs'].replace('|', chr(92) + '|')} |\n")
    t = open(D).read()
    t = t[:t.index(HEAD)] + HEAD + INTRO + rows
    open(D, "w").write(t)


main()
