----------------------------- MODULE MCHyperslab -----------------------------
EXTENDS Hyperslab
MCSizes == {<<a, b>> : a \in 2..7, b \in {2, 3, 5}}
MCWindows == {<<a, b>> : a \in 2..8, b \in {2, 4}}
===============================================================================
