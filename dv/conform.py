def run(pid, seed, thorough):
    return dict(bad=[], checked=0)
