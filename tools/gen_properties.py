#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P=[]
def p(id,title,statement,over,qt,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))

p("C01","Encrypting and then decrypting returns the plaintext up to fresh noise",
 "For every plaintext polynomial, every key pair and every draw of the encryption randomness, decrypting a fresh encryption with the owner's secret key gives back the plaintext up to the bounded fresh-noise term, at level min(plaintext level, ciphertext level) and with the plaintext's scale. Both the polynomial-level and the message-level entry points do this, for a newly created ciphertext and for one expanded with further (zero) party components.",
 ["inputs","configurations"],"all plaintext coefficients, all ternary/Gaussian samples and secret keys, every plaintext level and receiver level of the chain, NTT and coefficient-domain plaintexts",
 "The tests encrypt a few random messages at the maximum level with one random key per run; they cannot reach every level combination, domain flag or extreme coefficient.",
 ["mkrlwe/encryptor.go","mkrlwe/decryptor.go","mkckks/encryptor.go","mkckks/decryptor.go"],
 [("Encrypt","mkrlwe/encryptor.go Encryptor.Encrypt"),("Decrypt","mkrlwe/decryptor.go Decryptor.Decrypt"),("message wrappers","mkckks/encryptor.go EncryptPtxt/EncryptMsg/EncryptMsgNew/EncryptMsgNewExpand, mkckks/decryptor.go Decrypt")])
p("C02","Multi-party decryption needs exactly the involved keys, in any order",
 "Decrypting a ciphertext that involves a set of parties yields c0 plus the sum of each party's component times that party's secret key, whatever order keys are visited in, whatever additional keys are in the key set, and whether it is done in one call or by successive partial decryptions in any order. The ciphertext passed to the full decryption is left unchanged. If the key of any involved party is missing the call refuses (panics) instead of returning a value.",
 ["inputs","configurations","schedules"],"all ciphertext residues, all secret keys, party sets of 0..3 ids, every map iteration order explored, key sets that are exact, larger and smaller than needed",
 "The tests decrypt with the exact key set only; iteration order is sampled by the runtime and the refusal path is never exercised.",
 ["mkrlwe/decryptor.go","mkckks/decryptor.go","mkrlwe/elements.go"],
 [("PartialDecrypt","mkrlwe/decryptor.go"),("missing key check","mkrlwe/decryptor.go Decrypt"),("IDSet of a ciphertext","mkrlwe/elements.go")])
p("C03","Encryptors and decryptors carry no state from one call to the next",
 "What an encryptor or decryptor returns depends only on its arguments (and, for encryption, fresh randomness), not on which ciphertexts, messages, levels or scales the same object handled before. In particular a decryptor that has processed a low-level ciphertext still decrypts a later high-level ciphertext at that ciphertext's full level.",
 ["histories","inputs"],"all sequences of two to three calls on one encryptor/decryptor with operands of different levels, scales and party sets, all residues",
 "Every test builds fresh contexts and uses one level; the shared plaintext pool is never reused across levels.",
 ["mkckks/decryptor.go","mkckks/encryptor.go","mkrlwe/decryptor.go","mkrlwe/encryptor.go"],
 [("ptxtPool","mkckks/decryptor.go Decryptor, mkckks/encryptor.go Encryptor"),("plaintext truncation","mkrlwe/decryptor.go Decrypt")])
p("C04","Addition and subtraction are homomorphic for any parties, levels and scales",
 "Adding or subtracting two ciphertexts yields a ciphertext over the union of their parties, at the lower of the two levels and with the larger of the two scales, whose decryption is exactly the sum/difference of the two decryptions, the operand of smaller scale being first multiplied by the integer part of the scale ratio when that is at least 2. Components of parties present in only one operand are carried over (negated for the subtrahend).",
 ["inputs","configurations"],"all ciphertext residues; all overlaps of party sets (disjoint, equal, nested, empty, partial); all level pairs; scale ratios below, at and above 2 in both directions; map orders",
 "Only AddNew with equal levels and scales is tested; subtraction, scale alignment and unequal party sets at different levels are untested.",
 ["mkckks/evaluator.go","mkrlwe/elements.go","mkrlwe/idset.go"],
 [("evaluateInPlace","mkckks/evaluator.go"),("sub negation","mkckks/evaluator.go sub"),("receiver creation","mkckks/evaluator.go newCiphertextBinary")])
p("C05","Ciphertext multiplication with relinearization decrypts to the product",
 "The product of two ciphertexts is a ciphertext over the union of their parties whose decryption is the product of the two decryptions, divided by the moduli removed by the automatic rescaling, up to bounded key-switching and rounding noise, with scale equal to the product of scales divided by those moduli. This holds for squares, for different or overlapping parties, for operands at different levels, at every level with a modulus to drop, and for every grouping of the special primes.",
 ["inputs","configurations"],"all ciphertext residues of both operands; party sets {A}x{A}, {A}x{B}, {A,B}x{B}, ...; all level pairs; one and two primes per gadget digit; map orders",
 "Tests square and multiply fresh max-level ciphertexts with one prime per digit on random values only.",
 ["mkckks/evaluator.go","mkrlwe/keyswitch.go","mkrlwe/keyswitch_hoisted.go","mkrlwe/keygen.go"],
 [("MulRelinNew","mkckks/evaluator.go"),("MulAndRelin(Hoisted)","mkrlwe/keyswitch.go, mkrlwe/keyswitch_hoisted.go"),("relinearization key","mkrlwe/keygen.go GenRelinearizationKey")])
p("C06","Plaintext multiplication decrypts to the product with the plaintext",
 "Multiplying a ciphertext by an encoded plaintext yields, for every party set and every ciphertext level, a ciphertext whose decryption is the ciphertext's decryption times the plaintext polynomial, divided by the moduli removed by the automatic rescaling up to rounding error, with scale equal to the product of scales divided by those moduli; the plaintext is left unchanged.",
 ["inputs","configurations"],"all ciphertext and plaintext residues, party sets of 0..2 ids, all ciphertext levels not above the plaintext level, several scales",
 "MulPtxtNew has no test at all.",
 ["mkckks/evaluator.go"],[("MulPtxtNew","mkckks/evaluator.go")])
p("C07","Rotation by any amount rotates the encrypted slots by that amount",
 "Rotating a ciphertext by k (any integer: zero, negative, beyond the slot count, power of two or not, with or without a dedicated key) yields a ciphertext over the same parties, level and scale that decrypts, up to bounded key-switching noise, to the input's plaintext under the automorphism that shifts the slot vector left by k positions modulo N/2. Rotation keys generated for an amount serve exactly that amount.",
 ["inputs","configurations"],"all ciphertext residues; every rotation amount in [-N, N]; party sets of 0..2 ids; all levels; default and dedicated rotation keys; one and two primes per digit",
 "Rotation tests are commented out; nothing exercises RotateNew.",
 ["mkckks/evaluator.go","mkrlwe/keyswitch.go","mkrlwe/keygen.go"],
 [("rotate","mkckks/evaluator.go"),("Rotate","mkrlwe/keyswitch.go"),("GenRotationKey","mkrlwe/keygen.go")])
p("C08","Conjugation conjugates the encrypted slots at every level",
 "Conjugating a ciphertext yields a ciphertext over the same parties, level and scale that decrypts, up to bounded key-switching noise, to the input's plaintext under X -> X^-1, for every party set and at every level of the modulus chain.",
 ["inputs","configurations"],"all ciphertext residues, party sets of 0..2 ids, all levels, one and two primes per digit",
 "Conjugation has no active test.",
 ["mkckks/evaluator.go","mkrlwe/keyswitch.go","mkrlwe/keygen.go"],
 [("Conjugate","mkrlwe/keyswitch.go"),("GenConjugationKey","mkrlwe/keygen.go")])
p("C09","Hoisted evaluation equals ordinary evaluation",
 "Using the precomputed hoisted form of the operands gives the same result as the ordinary operation: hoisted multiplication and hoisted rotation return ciphertexts that decrypt to the same plaintext, at the same level and scale, as multiplication and rotation without hoisting, for every party set and level, and the hoisted form can be reused any number of times.",
 ["inputs","configurations","histories"],"all ciphertext residues; party sets; all levels; all rotation amounts with a key; repeated use of one hoisted form",
 "Hoisting is only exercised inside MulRelinNew at the maximum level; hoisted rotation is untested.",
 ["mkckks/evaluator.go","mkrlwe/keyswitch_hoisted.go"],
 [("HoistedForm","mkckks/evaluator.go"),("MulAndRelinHoisted, RotateHoisted, ExternalProductHoisted","mkrlwe/keyswitch_hoisted.go")])
p("C10","Rescaling divides by exactly the right moduli, with rounding, and never more",
 "Rescaling divides the encrypted value by the last moduli of the chain, one after another, for as long as the resulting scale stays at or above half the requested minimum and a level remains to drop; every component is divided with rounding error at most one half per step, the level falls by the number of divisions, and the recorded scale is divided by the same moduli. When no division is due the output equals the input. Non-positive minimum scale, zero scale and level zero are reported as errors, and the level never falls below zero.",
 ["inputs","configurations"],"all ciphertext residues, all levels, scales requiring 0, 1, 2 or more divisions than there are levels, in-place and out-of-place",
 "Rescale has no direct test; only the single division after a max-level product is sampled.",
 ["mkckks/evaluator.go"],[("Rescale, RescaleNew","mkckks/evaluator.go")])
p("C11","Multiplying by a constant and dropping levels preserve the value",
 "Multiplying a ciphertext by a constant (unsigned, signed, real or complex) yields a ciphertext that decrypts to the input times that constant, the scale growing by the factor used to represent a fractional constant and staying unchanged for an integral one. Dropping levels keeps every component's residues modulo the remaining moduli and the scale, and the copying variant leaves its input intact.",
 ["inputs","configurations"],"all ciphertext residues; integral, negative, fractional, imaginary and general complex constants; all levels; party sets",
 "Neither operation has a test.",
 ["mkckks/evaluator.go","mkckks/utils.go"],
 [("MultByConst, getConstAndScale","mkckks/evaluator.go"),("scaleUpExact","mkckks/utils.go"),("DropLevel(New)","mkckks/evaluator.go")])
p("C12","Homomorphic operations have no side effects and no memory",
 "An operation that returns a new ciphertext never changes its operands, the keys, the plaintexts, the hoisted forms or the shared parameters, never shares storage between its result and its operands, and returns the same value whatever operations the same evaluator performed before.",
 ["histories","inputs","configurations"],"all residues of operands; ordered pairs of evaluator operations on one evaluator/key set with operands of different levels and party sets; writing to a result and re-reading the operands",
 "Tests never look at an operand after an operation and never reuse an evaluator with a different level or party set.",
 ["mkckks/evaluator.go","mkrlwe/keyswitch.go","mkrlwe/keyswitch_hoisted.go","mkrlwe/keys.go"],
 [("ctxtPool, polyQPool","mkckks/evaluator.go Evaluator"),("swkPool*, polyQPool","mkrlwe/keyswitch.go KeySwitcher"),("HoistPool","mkrlwe/keys.go RelinearizationKeySet")])
p("C13","Generated keys satisfy their defining equations with fresh small noise",
 "Every generated public, relinearization, rotation, conjugation and switching key satisfies its defining equation over every ciphertext and special prime, with respect to the shared common reference string and the owner's secret key, up to an error polynomial that is a fresh, bounded, not identically zero Gaussian sample for each row; secret keys are the same small polynomial modulo all primes and have the requested distribution, and keys carry their owner's id.",
 ["inputs","configurations"],"all secret keys, all error samples, every row and every prime of Q and P, one and two primes per digit, every default rotation amount",
 "Tests check noise magnitude of some keys for one random draw with one prime per digit.",
 ["mkrlwe/keygen.go","mkrlwe/keys.go","mkrlwe/params.go"],
 [("GenPublicKey, GenRelinearizationKey, GenRotationKey, GenConjugationKey, GenSwitchingKey, GenSecretKey*","mkrlwe/keygen.go")])
p("C14","Gadget decomposition and external product recombine to the exact product",
 "Decomposing a polynomial at any level into digits and taking the inner product with a gadget encryption of b gives the polynomial times b up to the gadget noise divided by P: each digit is the input's integer residue modulo its group of primes, represented consistently modulo all primes of Q and P, for every level, every digit including a final partial group, and every number of primes per digit, for inputs in either domain.",
 ["inputs","configurations"],"all input residues; all levels; 1 and 2 (thorough: 3) primes per digit; even and odd numbers of ciphertext primes",
 "Tests use one prime per digit, where no reconstruction happens, so the multi-prime path never runs.",
 ["mkrlwe/keyswitch.go","mkrlwe/basis_extension.go","mkrlwe/keyswitch_hoisted.go"],
 [("Decompose, ExternalProduct, DecomposeSingleNTT","mkrlwe/keyswitch.go"),("DecomposeAndSplit, NewDecomposer","mkrlwe/basis_extension.go")])
p("C15","RNS basis extension and scaled-down division are exact up to one unit",
 "Extending a polynomial's residue representation from one set of primes to another represents the same integer (up to one multiple of the source modulus when it lies within floating-point distance of a boundary), and dividing by the special (or ciphertext) modulus returns the quotient of that integer up to one unit, for every source and target level and every coefficient value.",
 ["inputs","configurations"],"all residues, all (levelQ, levelP) pairs of the explored chains, both directions, coefficient and NTT variants",
 "The repository's own basis extender has no test.",
 ["mkrlwe/basis_extension.go"],
 [("ModUpQtoP, ModUpPtoQ","mkrlwe/basis_extension.go"),("ModDownQPtoQ, ModDownQPtoQNTT, ModDownQPtoP","mkrlwe/basis_extension.go"),("multSum, reconstructRNS","mkrlwe/basis_extension.go")])
p("C16","Party sets and key sets behave as sets and maps keyed by party",
 "Party sets implement union, intersection, membership, insertion, removal, size and copying exactly as mathematical sets without changing their arguments, and the reserved name \"0\" can never be a party. Key sets return for a party (and rotation amount) precisely the key last added and not deleted for it and refuse (panic) otherwise; ciphertext and key copies are equal to and independent of the original, and padding a ciphertext adds only zero components for new parties.",
 ["inputs","histories"],"all sequences of a few operations over a small universe of ids with symbolic choice of ids, operations and membership; all residues for copies and padding",
 "Set and key-set operations are only used incidentally by other tests.",
 ["mkrlwe/idset.go","mkrlwe/keys.go","mkrlwe/elements.go","mkckks/elements.go"],
 [("IDSet","mkrlwe/idset.go"),("*KeySet Add/Del/Get, CopyNew","mkrlwe/keys.go"),("Ciphertext CopyNew/Copy/PadCiphertext","mkrlwe/elements.go")])
p("C17","Encrypted training performs the documented gradient update",
 "In each of the four training programs, every iteration updates the encrypted model exactly as the documented accelerated gradient step with the cubic sigmoid approximation prescribes for the encrypted batch (scores, gradient, momentum), and inference evaluates the same approximation of the trained model on the test sample, for all feature and label values.",
 ["inputs","configurations"],"all values of selected features and labels (other rows zero), all iterations of the program's schedule bounded to a few, each program",
 "The programs have no tests; they only print an accuracy.",
 ["lr/lr.go","lr/lr_toy.go","lr/lr_minibatch.go","lr/lr_minibatch_toy.go"],
 [("training loop and inference","main in each program")])
p("C18","Row and column sums add exactly the intended slots",
 "In each training program the row sum puts in every slot the sum over all rows of that slot's column, and the masked column sum puts in every slot of a row the sum of that row's columns, for every slot vector and every power-of-two matrix shape that fills the slots.",
 ["inputs","configurations"],"all slot values, all power-of-two shapes numRow*numCol = number of slots up to 64 slots",
 "The helpers have no tests.",
 ["lr/lr.go","lr/lr_toy.go","lr/lr_minibatch.go","lr/lr_minibatch_toy.go"],
 [("SumRowVec, SumColVec","each program")])
p("C19","Training data is read, labelled, normalised and packed faithfully",
 "In each training program every record of the data file ends up, normalised as documented, in the slots of its own row of the encrypted batch with its own label, columns in file order, the header skipped, unused slots zero, and a malformed number is refused.",
 ["inputs","configurations"],"all numeric values of the selected records of the file",
 "No test reads a data file.",
 ["lr/lr.go","lr/lr_toy.go","lr/lr_minibatch.go","lr/lr_minibatch_toy.go"],
 [("readData","each program"),("packing and normalisation","main in each program")])
p("C20","Gadget dimensions cover every prime exactly once and the CRS has full size",
 "For every parameter set the number of digits at a level is the least number of digit groups that covers all primes up to that level, and each common reference string entry - default or added later - has one full-size row modulo every prime per digit; default entries exist for relinearization, conjugation and every power-of-two rotation, all entries, default and added, are distinct uniform polynomials, and adding an entry never changes the others. The scheme parameters report the ring, primes, scale and number of slots they were created with, and a new message has exactly that many slots.",
 ["inputs","configurations"],"all level values in range and all explored prime counts",
 "Tests run one parameter shape.",
 ["mkrlwe/params.go","mkckks/params.go","mkrlwe/keys.go"],
 [("Alpha, Beta, NewParameters, AddCRS","mkrlwe/params.go"),("NewSwitchingKey","mkrlwe/keys.go")])
p("C21","Every encryption is masked and carries its own fresh errors",
 "A fresh encryption adds to the plaintext the owner's public key multiplied by one small ternary polynomial that is drawn anew for this encryption (the same in both components, able to be non-zero in every coefficient), plus a fresh, bounded, not identically zero Gaussian error on each of the two components. No draw is shared between components or between encryptions, whatever the levels, domains and entry point (polynomial, plaintext, message, expanded).",
 ["inputs","configurations","histories"],"all samples, all plaintexts, every plaintext and receiver level and domain flag, pairs of consecutive encryptions by one encryptor",
 "An encryption without its mask or errors still decrypts, so every functional test passes with it.",
 ["mkrlwe/encryptor.go","mkckks/encryptor.go"],
 [("samplers in Encrypt","mkrlwe/encryptor.go Encryptor.Encrypt"),("newEncryptorBase","mkrlwe/encryptor.go"),("message wrappers","mkckks/encryptor.go")])
p("C22","The result of every operation is a valid operand of every other operation",
 "A ciphertext returned by any evaluator operation (addition, subtraction, constant and plaintext multiplication, multiplication, rotation, conjugation, rescaling, level drop) is well formed - all components present at one level, in the coefficient domain, sharing no storage - and using it as the operand of any further operation of the same evaluator decrypts to that operation applied to what it decrypts to, with the stated scale, level and noise.",
 ["inputs","histories"],"all residues of the initial operands, all ordered pairs of operations, two party sets",
 "Tests chain a few fixed operations on random values.",
 ["mkckks/evaluator.go","mkrlwe/keyswitch.go","mkrlwe/keyswitch_hoisted.go"],
 [("evaluator operations","mkckks/evaluator.go"),("Rotate, Conjugate, MulAndRelinHoisted","mkrlwe/keyswitch.go, mkrlwe/keyswitch_hoisted.go")])
p("C23","Evaluation needs exactly the involved parties' keys and refuses without them",
 "Multiplication, rotation and conjugation (hoisted or not) need the evaluation keys of exactly the parties of their operands, for exactly the rotation amounts they are made of. If one of these keys is missing from the key set the operation refuses (panics) instead of returning a ciphertext; keys of other parties or amounts, present or absent, have no influence. A refused operation leaves operands, keys and evaluator usable: the next operation is correct.",
 ["inputs","configurations","histories"],"all residues, all subsets of the keys of three parties",
 "Tests always pass complete key sets.",
 ["mkrlwe/keyswitch.go","mkrlwe/keyswitch_hoisted.go","mkckks/evaluator.go","mkrlwe/keys.go"],
 [("MulAndRelin, Rotate, Conjugate","mkrlwe/keyswitch.go"),("MulAndRelinHoisted, RotateHoisted","mkrlwe/keyswitch_hoisted.go"),("RotateNew","mkckks/evaluator.go")])
p("C24","Parameter sets do not influence each other",
 "Objects (key generators, keys, reference strings, encryptors, decryptors, evaluators) made for different parameter sets - other primes, other numbers of primes, other digit sizes, another ring degree - can be used in turn in one program: every result is the one its own parameter set prescribes, whatever was done before with the other.",
 ["inputs","configurations","histories"],"all residues, samples and messages, every operation, interleavings of two parameter sets",
 "Tests use one parameter set per process.",
 ["mkrlwe/params.go","mkrlwe/keyswitch.go","mkrlwe/basis_extension.go","mkckks/evaluator.go","mkckks/encryptor.go","mkckks/decryptor.go"],
 [("NewParameters","mkrlwe/params.go, mkckks/params.go"),("NewEvaluator","mkckks/evaluator.go"),("NewKeySwitcher, NewDecomposer","mkrlwe/keyswitch.go, mkrlwe/basis_extension.go")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
