_o = "TLA+ state machine with invariants and liveness, TLC behaviours replayed into the code, recorded traces validated by TLC"
OTHER = {f"C{i}": _o for i in (20, 21, 22, 23, 25, 29, 30, 31, 32)}
