"""regenerate MANIFEST.json from the checks that exist"""
import ast, json, os, re
V="/verif"
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
NA={"C19":"Every step is an external GMP call on unbounded integers (modular exponentiation, inversion, primality); correctness is a number-theoretic lemma over assumed mpz contracts, for which the verifier's logic (bit-vectors, linear arithmetic) has no theory, so a contract proof would only restate its assumptions.",
"C20":"Built on the Joye-Libert layer (C19): ciphertext arithmetic is external GMP calls on unbounded integers, outside the logic of the verifier; only assumed contracts would carry the property.",
"C23":"The example is a main() with constant inputs and no function boundary to put a contract on; its ordering is visible only as program text, so no contract over callable code can express it. Its parts (tag, validation, encryption) are C03, C04, C07."}
checks=[];na=[]
for p in props:
    f=V+"/checks/%s.py"%p["id"]
    if os.path.exists(f):
        s=open(f).read()
        lv=re.search(r'^LEVEL = "(.*)"',s,re.M); nt=re.search(r'^LEVEL_NOTE = (.*)$',s,re.M)
        note=ast.literal_eval(nt.group(1)) if nt else "Every obligation of the contracts is discharged for all inputs and lengths in the stated precondition; trusts clang's front end, the verifier /verif/vc and z3, and the transcription of the specification."
        checks.append({"property":p["id"],"quick_cmd":"python3-vt checks/%s.py"%p["id"],"thorough_cmd":"python3-vt checks/%s.py --thorough"%p["id"],
          "technique":"contract-based deductive verification of the LLVM IR of the real functions (symbolic execution with proved loop invariants, callee contracts, canonical rewriting + SMT)",
          "level":lv.group(1) if lv else "proof","level_note":note})
    else:
        na.append({"property":p["id"],"reason":NA.get(p["id"],"no check built yet")})
json.dump({"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na},open(V+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"n/a")
