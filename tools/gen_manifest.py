#!/usr/bin/env python3
"""Writes MANIFEST.json, bounds.json and known_findings.json."""
import json,os,subprocess
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
common="N=16 coefficients, each residue/sample symbolic over its full range; Q primes of 55,40,40,40 bits; P primes of 56-60 bits; real ring tables"
T="solver-based checking: symbolic execution of the real code's SSA, assertions decided by z3 over all residues/samples within bounds"
B={
"C01":("plaintext residues symbolic; encryption samples and secret keys symbolic within their samplers' ranges","chains of 2-3 primes, every plaintext/ciphertext level pair, both domain flags, 0-2 extra parties, 2 map orders; message entry points with symbolic slots; full and sparse packing; chains of 5 and 8 primes"),
"C02":("ciphertext residues and secret keys symbolic","all subsets of 3 parties, chains of 2, every level, 3 map orders, every key subset, all 6 orders of partial decryption, two scales; up to 6 parties with any one key missing; chains of 5 and 8 at every level"),
"C03":("ciphertext residues, messages, samples symbolic","histories of 2 (thorough 3) calls on one object over every level, two party sets, two scales, five encryption entry points"),
"C04":("ciphertext residues symbolic","chain of 3, party-mask pairs (quick: representative overlaps, thorough: all 64), five level pairs, scale pairs on both sides of ratio 2, two map orders, operand aliasing; five pairs of up to 6 parties; chains of 5 and 8"),
"C05":("residues of both operands symbolic; keys generated by the real generator from symbolic samples","chains of 2-4, 2-6 special primes (1, 2, 3 primes per digit incl. partial groups), all level pairs listed in the harness, 0-4 parties, five scale pairs; chains of 5 (thorough 7)"),
"C06":("ciphertext and plaintext residues symbolic","chain of 3, all subsets of 3 parties, all level/plaintext-level pairs, three scales, histories of 2"),
"C07":("ciphertext residues symbolic","amounts -9..17 on 8 slots, dedicated keys for 3,5,6,7, N=16,32 (thorough 64), chains 2-4 and 6, 2-6 special primes, every level, up to 6 parties"),
"C08":("ciphertext residues symbolic","all subsets of 3 parties and 4 and 6 parties, every level, chains 2-4 and 6, 2-6 special primes, N=16,32 (thorough 64), histories of 2"),
"C09":("ciphertext residues symbolic","five party pairs, four level pairs, sixteen amounts, 2-6 special primes, chains up to 5 (thorough 6), 4 (rotation 6) parties, reuse after other operations"),
"C10":("ciphertext residues symbolic","chains 3-5 and 8 with up to five divisions, every level, the scale/minimum pairs of the harness on both sides of every threshold, N=16,32 (thorough 64), aliasing, histories of 2"),
"C11":("ciphertext residues symbolic","the listed constants (integral, signed, fractional, complex, Gaussian integers) concrete; every level and drop count, N=16,32; chain of 8 with 6 parties"),
"C12":("ciphertext residues, keys symbolic","15 operations singly with three party pairs and three level pairs, and in all ordered pairs; two map orders"),
"C13":("samples symbolic over their samplers' ranges","chains of 1-4, 6 and 7 primes, 2-6 special primes, N=16,32, every power-of-two amount, six secret-key generators"),
"C14":("residues symbolic over their ranges","the prime/gamma combinations of the harness, every level, both domains, histories of 2"),
"C15":("residues symbolic, canonical and lazy (< 2q)","4x4 levels with 4+4 primes and corners of 5+6, N=16,32, both directions, histories of 2"),
"C16":("component residues symbolic","sets over three names (incl. the empty string), histories of 2 (thorough 3) set operations and 3 (thorough 4) key-set operations, all subsets and paddings of 3 parties; names are compared only for equality, so one representative per equality pattern is used"),
"C17":("slot values, labels and model symbolic reals",""),
"C18":("slot values symbolic reals",""),
"C19":("csv fields symbolic reals",""),
"C20":("level symbolic in 0..2^20 for the digit count; reference-string samples symbolic","1-5 ciphertext primes, 1-6 special primes, every gamma leaving a prime per digit, N=16 (thorough 32)"),
"C21":("encryption samples and plaintext residues symbolic","chain of 2, every plaintext/receiver level pair, both domain flags, four message entry points in ordered pairs; the public key is a pair of constants, which makes the draws visible"),
"C22":("residues of the initial ciphertexts and plaintexts symbolic","chains of 3 (quick) or 4 (thorough) ciphertext primes, all ordered pairs of fourteen operations (quick: four costly pairs left out), one (quick) or two party sets"),
"C23":("ciphertext residues symbolic","relinearization keys: every subset of three parties' keys for six operand pairs, ordinary and hoisted; rotation: each party set of two, one key of one party missing, amounts 0-8, ordinary and hoisted; conjugation: every subset of keys for every set of three parties; two map orders (multiplication: thorough only)"),
"C24":("ciphertext residues, messages and samples symbolic","five pairs of parameter sets (other primes with one and with two per digit, reordered primes with two per digit, twice the degree, fewer primes), fourteen operations in the orders A B A and B A B; encryption and decryption in the same orders; key and reference-string generation"),
}
DEEP={"C02":"chain of 6 and 34 parties with 60-bit primes","C03":"six calls in a row","C04":"ten sums in a row, sums of up to 34 parties, 60-bit primes","C05":"9 digits (both operands symbolic) and 32 digits (one operand fixed in the quick tier) of 60-bit primes; 34 parties (four symbolic components, the other operand fixed)",
"C06":"32 primes of 60 bits, 4-34 parties","C07":"32 digits of 60-bit primes, 34 parties","C08":"32 digits of 60-bit primes, 34 parties","C09":"as C05 and C07","C10":"12 primes of 60 bits","C11":"12 primes of 60 bits","C12":"17 operations in a row and one more","C13":"32 primes of 60 bits","C14":"9 and 32 digits of 60-bit primes","C15":"32 and 4 primes of 60 bits"}
for k,v in DEEP.items(): B[k]=(B[k][0],B[k][1]+"; "+v)
EXTRA={
"C16":["map keys (party names) are enumerated up to equality pattern, not symbolic"],
"C11":["constants are concrete representatives of each branch; integral constants of 2^52 and above are represented with float64 precision and not explored"],
}
NA={}
lrb=os.path.join(root,"tools","lr_bounds.json")
if os.path.exists(lrb):
    for k,v in json.load(open(lrb)).items():
        B[k]=tuple(v["bounds"]); EXTRA[k]=v["assumptions"]
else:
    for k in ("C17","C18","C19"):
        NA[k]="check under construction: the training programs are main packages with inlined sizes; not decided yet"
checks=[]; bounds={}
note={"C16":"Every coefficient value; party names enumerated up to equality pattern."}
props=[json.loads(l)["id"] for l in open(os.path.join(root,"properties.jsonl"))]
for p in props:
    if p in NA: continue
    bounds[p]={"symbolic":B[p][0],"enumerated":B[p][1],"sizes":common if p not in ("C17","C18","C19") else "see enumerated","outside":"larger rings, longer chains, more parties and longer histories than listed"}
    if p in EXTRA: bounds[p]["assumptions"]=EXTRA[p]
    checks.append({"property":p,"quick_cmd":f"bash check.sh {p} quick","thorough_cmd":f"bash check.sh {p} thorough","technique":T,"level":"model_checking",
      "level_note":"Bounded: holds for every value of the symbolic inputs ("+B[p][0]+") within "+(B[p][1] or "the stated sizes")+". Trusts the SSA interpreter, the contracts for lattigo's modular kernels/NTT/samplers (preconditions checked at each call) and z3; violations are replayed natively before being reported."})
json.dump({"version":1,"setup_cmd":"bash setup.sh","hooks":{"guard":"none","enable":"no hooks: /repo is analysed and built as it is"},"checks":checks,
 "not_applicable":[{"property":k,"reason":v} for k,v in NA.items()]},open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
json.dump(bounds,open(os.path.join(root,"bounds.json"),"w"),indent=1)
