"""known-findings.txt: lines `finding: property=ID key=REGEX what` are suppressed
by the key of the failing obligation or input; `fixed:` lines suppress nothing."""
import os, re
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.txt')


def match(prop, f):
    if not os.path.exists(F):
        return None
    for l in open(F):
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
        if m and m.group(1) == prop and re.search(m.group(2), f['key'] + ' ' + f['what']):
            return m.group(3).strip()
    return None
