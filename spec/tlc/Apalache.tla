---- MODULE Apalache ----
\* What `quint compile --target tlaplus` output needs, for TLC
a := b == a = b
====
