------------------------------ MODULE SelfCheck ------------------------------
(* Evaluates a fixed list of terms and prints them as JSON.  The runner     *)
(* evaluates it twice - with the Java overrides and with the pure TLA+      *)
(* definitions - and requires the same output; the first items are also     *)
(* published test vectors (see tools/selfcheck.py).                         *)
EXTENDS BigNat, EdwardsLaw, Keccak, Sha256, Ripemd160, Aes256, TLC

Ramp(n, k) == [i \in 1..n |-> (i * k + (i * i) \div 7) % 256]
Abc == <<97, 98, 99>>
Nats == { Norm(Ramp(n, k)) : n \in {0, 1, 31, 33}, k \in {77, 255} }
          \cup { Pow2(255), Sub(Pow2(255), <<19>>), [i \in 1..64 |-> 255] }
Ms == { Sub(Pow2(255), <<19>>), <<101>>, Norm(Ramp(32, 77)) }
\* some point of the curve with p = 101, d = 12
ToyB == << <<2>>, <<47>> >>
P25519 == Sub(Pow2(255), <<19>>)

Items == <<
  << "sha256", SHA256(Abc), SHA256(<<>>), [i \in 1..3 |-> SHA256(Ramp(<<55,56,64>>[i], 3))] >>,
  << "keccak", KECCAK_256(Abc), SHA3_256(Abc), SHA3_512(Abc), SHA3_512(<<>>),
     [i \in 1..4 |-> SHA3_512(Ramp(<<71,72,73,144>>[i], 5))], [i \in 1..3 |-> SHA3_256(Ramp(<<135,136,137>>[i], 5))] >>,
  << "ripemd", RIPEMD160(Abc), RIPEMD160(<<>>), [i \in 1..3 |-> RIPEMD160(Ramp(<<55,56,64>>[i], 9))] >>,
  << "aes", AESEnc([i \in 1..32 |-> i-1], [i \in 1..16 |-> 17*(i-1)]),
     AESDec([i \in 1..32 |-> i-1], [i \in 1..16 |-> 17*(i-1)]),
     AESEnc(Ramp(32, 201), Ramp(16, 91)), AESDec(Ramp(32, 201), Ramp(16, 91)) >>,
  << "add", [a \in Nats |-> [b \in Nats |-> << Add(a,b), Mul(a,b), Cmp(a,b), IF Le(b,a) THEN Sub(a,b) ELSE Sub(b,a) >>]] >>,
  << "mod", [a \in Nats |-> [m \in Ms |-> << DivMod(a,m), Mod(a,m), AddMod(a, a, m), MulMod(a, a, m), SubMod(<<7>>, a, m) >>]] >>,
  << "pow", PowMod(Norm(Ramp(32, 9)), <<200, 3>>, P25519), InvMod(<<9,1,7>>, <<1,226,10,250>>), InvMod(<<55>>, <<101>>),
     InvMod(<<>>, <<101>>) >>,
  << "bytes", ToBytes(<<1, 2>>, 5), ToBytes(<<>>, 3), LimbValue(<<-5, 100, -33554432, 1>>, <<0, 26, 51, 77>>, P25519),
     LimbValue(<<-5, 4>>, <<0, 3>>, <<101>>), Norm(<<0, 3, 0, 0>>) >>,
  << "law", [n \in {0, 1, 2, 3, 5, 8, 13, 87, 88, 89, 255} |-> LawMul(<<101>>, <<12>>, FromNat(n), ToyB)] >>
>>
ASSUME \A i \in 1..Len(Items) : PrintT("ITEM " \o ToString(i) \o " " \o ToString(Items[i]))
VARIABLE x
Init == x = 0
Next == x' = x
=============================================================================
