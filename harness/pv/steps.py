"""Counts bytecode instructions executed in the repository's code, with a budget."""
import sys

from pv.load import is_repo_file

mon = sys.monitoring
TOOL = 3


class OverBudget(BaseException):
    pass


class Steps:
    def __init__(self):
        self.count, self.budget = 0, None
        mon.use_tool_id(TOOL, "pv-steps")
        self.repo = {}

        def instruction(code, offset):
            ok = self.repo.get(code)
            if ok is None: ok = self.repo[code] = is_repo_file(code.co_filename)
            if not ok: return mon.DISABLE
            self.count += 1
            if self.count > self.budget:
                self.budget = float("inf")
                raise OverBudget

        mon.register_callback(TOOL, mon.events.INSTRUCTION, instruction)

    def run(self, fn, budget):
        """(steps, result); OverBudget once more than budget steps were made."""
        self.count, self.budget = 0, budget
        mon.set_events(TOOL, mon.events.INSTRUCTION)
        try: r = fn()
        finally: mon.set_events(TOOL, 0)
        return self.count, r
