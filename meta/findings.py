#!/usr/bin/env python3
"""Writes known_findings.json: the findings that are recorded, and the defects that were repaired."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = []
# commit subject -> property
FIXED = [
 ("leave a paradigm that is empty in this direction", "C01", "a paradigm with no entry in this direction swallowed the sections after it"),
 ("initialise the weight of entry tokens", "C01", "entries with paradigms or regexps got an uninitialised weight"),
 ("an entry's weight applies once", "C01", "an entry's weight was applied to each of its parts, and leaked into other entries"),
 ("count the weights of epsilon transitions", "C12", "weights on transitions that read nothing were ignored by lt-proc"),
 ("room for weights of 10000", "C12", "lt-proc -W overflowed its buffer for weights of 10000 and more"),
 ("count weight classes and distinct analyses", "C12", "lt-proc -N and -L counted duplicates and miscounted classes"),
 ("a negated character class", "C01", "a regexp [^...] also matched the empty string"),
 ("keep final weights when minimising", "C01", "weights of final states were lost by minimisation"),
 ("keep letters outside the BMP", "C15", "letters outside the BMP were cut when a tool rewrote a dictionary"),
 ("parallel arcs keep the least weight", "C14", "of two parallel arcs the first one's weight was kept instead of the least"),
 ("lt-compose jobs no longer share an alphabet", "C14", "data race between the jobs of lt-compose"),
 ("equivalent characters do not merge entries", "C18", "ACX equivalents merged entries that are spelled differently"),
 ("lt-restrict treats side variants as lt-comp does", "C17", "lt-restrict treated vl/vr differently from lt-comp"),
 ("lt-restrict -m no longer fails", "C17", "lt-restrict -m failed when a section became empty"),
 ("weights of the bilingual dictionary do not leak", "C13", "weights of the bilingual dictionary were added to the trimmed analyser"),
 ("what follows a cyclic paradigm", "C01", "what follows a cyclic paradigm became part of the cycle"),
 ("lt-trim puts an invariable part only after", "C13", "lt-trim attached the tags of one entry to the invariable part of another"),
 ("a filtered entry without contents", "C01", "a filtered <e/> swallowed the entries after it"),
 ("lt-expand escapes special characters at the start", "C02", "the first character of a text was not escaped"),
 ("lt-expand combines restricted entries", "C02", "pairs were lost when a restricted entry met a second paradigm"),
 ("lt-expand reads alt, v, vl and vr as the lists", "C02", "lists of alternatives or variants never matched; v and vr together printed a wrong direction"),
]
exec(open(os.path.join(V, "meta", "findings_more.py")).read()) if os.path.exists(os.path.join(V, "meta", "findings_more.py")) else None
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
out = []
used = set()
for sub, p, what in FIXED:
    m = [x for x in log if x.split(" ", 1)[1].startswith("fix: " + sub)]
    assert len(m) == 1, (sub, m)
    used.add(m[0])
    out.append("fixed: property=%s %s %s" % (p, m[0].split()[0], what))
for x in log:
    if " fix: " in x and x not in used:
        print("NOT LISTED:", x)
json.dump({"findings": FINDINGS, "fixed": out}, open(os.path.join(V, "known_findings.json"), "w"), indent=1, ensure_ascii=False)
