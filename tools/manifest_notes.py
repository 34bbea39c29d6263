DEFAULT_NOTE = ("Static: every partition of the value space the engine can express is analysed, for arbitrary inputs; loops by a generic "
                "iteration. Partitions outside the engine's fragment are listed as undecided in the evidence and not claimed.")
NA = {
    "N01": "quantifies over the joint distribution of samples drawn from numpy's random generator, a statistical statement about runtime values that no static argument over this source decides",
    "N02": "bounds on floating-point rounding error depend on runtime magnitudes and on compiled floating-point code, which this family does not bound here",
    "N03": "the round trip runs through pyqir and the LLVM text writer and parser, external binaries without source here, so what the loader receives cannot be derived from this source",
}
