#!/usr/bin/env python3
# Writes MANIFEST.json from the list of claimed properties.
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T="contract-based deductive verification of the Go source (conditions generated from /repo on every run, discharged by SMT solvers)"
COMMON="Proof over all inputs of the stated domain for every function under contract; trusts the condition generator gocv, the SMT solvers and the listed models of library functions; a replay harness on the real code only supplies failing inputs. "
notes={
"C01":"Integer and float64 steps of the year computation verified for years 638..1,000,000.",
"C02":"Verified for years 638..1,000,000 and days 1..400.",
"C03":"float64 rounding modelled (round to nearest, no FMA, no underflow); math.Sin assumed within 1e-13 of the sine.",
"C04":"float64 rounding modelled; math.Sin assumed within 1e-13 of the sine; tolerances as in the property.",
"C05":"float64 rounding modelled; domain |d| <= 1e6, |x|,|y|,|z| <= 100000.",
"C06":"Spacing lemma by complete evaluation of the integer definition over all years of the domain.",
"C07":"Extra-day facts for any contents of the exceptions table; gap lemma by complete evaluation.",
"C08":"Both exceptions configurations, any contents of the table.",
"C09":"Loop verified with generated, proved invariants and a proved measure; any distance from the epoch within the domain.",
"C10":"Uses the contract of the Kattika computation.",
"C11":"Exceptions off, years 645..3500; the arithmetic drift lemma by complete evaluation over all years of the domain.",
"C12":"time.Time modelled as integer nanoseconds with Duration overflow as an obligation.",
"C13":"Years 1..1,000,000.",
"C14":"Frame conditions and determinism (results depend only on arguments and settings) of every function listed in the evidence.",
"C15":"All uposathas of the calendar, via the invariant stated in the contract.",
"C16":"Contract of GenerateSolarYear verified separately for each of the 1601 years of the domain (a complete case split, callees through their contracts), with exceptions off and with the shipped exceptions on.",
"C17":"Closed world of the five event types of the package, non-nil events, distinct lists not sharing storage; sort.Sort through its specification.",
"C18":"Lists of any length (quantified invariants); library model of time.AddDate in UTC.",
"C19":"json.Unmarshal is an uninterpreted function of the bytes; every embedded data file decoded and checked by complete evaluation.",
"C20":"base64, gzip and ioutil.ReadAll are uninterpreted functions; sync.Once through its specification; no concurrent mutation modelled. Local files: what a path names is a function of the path during a call (opens or not, reads or not, its bytes); an open file is a cell of unread bytes and a ghost count of open files returns to 0.",
"C24":"Ghost client functions (contracts/13_files.client) open, read, stat and close through the exported API; everything they call is executed symbolically, dynamic types of http.FileSystem, http.File and os.FileInfo included; a bytes.Reader or local file is a cell of unread bytes. path.Base and path.Clean are uninterpreted except on constants.",
"C23":"Tables unrolled from their literals (never written to anywhere); string equality over an uninterpreted sort with distinct constants; printed forms as concatenations.",
"C22":"The calendar is specified as the log of merge calls; distinct dates, own dates and completeness are inductive postconditions of the merge; sort.Sort through its specification; GetAstroMoons and GenerateSolarYear as functions of their arguments (their own contracts are C19 and C16).",
"C21":"Library stand-in for the iCal type; see DESIGN.md.",
}
claimed=open(os.path.join(V,'tools','claimed.txt')).read().split()
na={}
for l in open(os.path.join(V,'tools','not_applicable.txt')):
    if l.strip():
        k,r=l.strip().split(' ',1); na[k]=r
m={"version":1,"setup_cmd":"./setup.sh","checks":[],"not_applicable":[]}
for p in claimed:
    m["checks"].append({"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough","technique":T,"level":"proof","level_note":COMMON+notes[p]})
for l in open(os.path.join(V,'properties.jsonl')):
    p=json.loads(l)["id"]
    if p not in claimed:
        m["not_applicable"].append({"property":p,"reason":na.get(p,"not yet under contract")})
json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
