# subjects of later fix: commits, looked up before the list in fixes.py
MORE = [
    ("LSFIR and invLSFIR weight", "C19"), ("LSFIR fits the frequency response", "C19"), ("invLSFIR_unc", "C19"),
    ("invLSIIR returns", "C20"), ("LSIIR returns", "C20"), ("fit_som", "C21"), ("impinvar", "C23"), ("multi_sine", "C24"),
    ("squarepulse", "C24"), ("corr_noise", "C24"), ("Signal", "C27"),
]
