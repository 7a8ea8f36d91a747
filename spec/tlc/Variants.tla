---- MODULE Variants ----
====
