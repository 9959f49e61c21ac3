"""Second opinion: export the query as SMT-LIB and run the cvc5 binary."""
import os, subprocess, tempfile
import z3


def cvc5_unsat(formulas, ms):
    s = z3.Solver()
    s.add(*formulas)
    text = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(text)
        name = f.name
    try:
        r = subprocess.run(
            ["cvc5", "--strings-exp", f"--tlimit={int(ms)}", name],
            capture_output=True, text=True, timeout=ms / 1000 + 5,
        )
        return r.stdout.strip().splitlines()[:1] == ["unsat"]
    except (subprocess.TimeoutExpired, FileNotFoundError):
        return False
    finally:
        os.unlink(name)
