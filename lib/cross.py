"""Second solver: re-check an unsat z3 query with cvc5 (Python bindings), in a child process with a hard time cap."""
import os, select, signal
import cvc5
def _ask(lines, tlimit_ms):
    tm = cvc5.TermManager()
    s = cvc5.Solver(tm)
    s.setOption("tlimit-per", str(tlimit_ms))
    s.setLogic("QF_NRA")
    p = cvc5.InputParser(s)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, lines, "q")
    sm = p.getSymbolManager()
    out = ""
    while True:
        c = p.nextCommand()
        if c.isNull(): break
        out = c.invoke(s, sm) or out
    out = str(out).strip().splitlines()
    out = out[-1] if out else "unknown"
    return out if out in ("sat", "unsat") else "unknown"

def check(z3solver, tlimit_ms=10000):
    lines = "\n".join(l for l in z3solver.to_smt2().splitlines() if not l.startswith(("(set-info", "(set-logic", ";")))
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:            # cvc5 does not always honour its own limit
        out = "unknown"
        try: out = _ask(lines, tlimit_ms)
        except BaseException: pass
        try: os.write(w, out.encode())
        finally: os._exit(0)
    os.close(w)
    try:
        out = os.read(r, 16).decode() if select.select([r], [], [], tlimit_ms / 1000.0 + 2)[0] else "unknown"
    finally:
        os.close(r)
        try: os.kill(pid, signal.SIGKILL)
        except OSError: pass
        os.waitpid(pid, 0)
    return out if out in ("sat", "unsat") else "unknown"
