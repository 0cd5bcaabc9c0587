"""The known findings: known-findings, one to a line,
    known: property=<id> input=<json string> shows=<what the probe shows> <what fails>
    fixed: property=<id> <commit> <what failed>
"""
import json, os, re, subprocess
import vlib


def known_findings(prop):
    out = []
    with open(os.path.join(vlib.VERIF, 'known-findings')) as f:
        for line in f:
            m = re.match(r'known: property=(\S+) input=("(?:[^"\\]|\\.)*") shows=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out.append(dict(input=json.loads(m.group(2)), shows=m.group(3), what=m.group(4).strip()))
    return out


def still(c, k):
    """Does the real code still fail in this way?"""
    cmd = ['bound'] if k['shows'] == 'bound' else ['probe', '--variants', 'be']
    r = subprocess.run([c.bin, *cmd], input=k['input'], capture_output=True, text=True, timeout=60)
    return ('"X"' in r.stdout) if k['shows'] == 'rejected' else (k['shows'] in r.stdout)
