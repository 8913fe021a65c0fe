"""Registration of contracts."""


class Contract:
    """fn(S): a contract. prove: discharge it for all inputs ('unbounded'), or for all values within stated
    list sizes ('bounded'), or not at all (None: run-time contract only). runs: concrete runs quick/thorough."""

    def __init__(self, name, fn, prove="unbounded", bound="", runs=(60, 600), budget=(100, 400), timeout=8000,
                 functions=(), assumes=(), why_bounded="", max_paths=400, run_limit=60, run_time=(40, 200)):
        self.name, self.fn, self.prove, self.bound = name, fn, prove, bound
        self.runs, self.budget, self.timeout = runs, budget, timeout
        self.functions, self.assumes, self.why_bounded = list(functions), list(assumes), why_bounded
        self.max_paths, self.run_limit, self.run_time = max_paths, run_limit, run_time


class Prop:
    def __init__(self, pid, contracts, assumes=()):
        self.pid, self.contracts, self.assumes = pid, contracts, list(assumes)
