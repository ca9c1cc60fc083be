"""Second back end: cvc5 on an SMT-LIB text."""


def check(text, ms):
    """sat / unsat / unknown."""
    try:
        import cvc5
        tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        slv.setOption('tlimit-per', str(ms))
        slv.setLogic('ALL')
        ip = cvc5.InputParser(slv)
        body = '\n'.join(ln for ln in text.splitlines() if not ln.startswith('(set-info'))
        ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, body, 'vc')
        sm = ip.getSymbolManager()
        res = 'unknown'
        while True:
            cmd = ip.nextCommand()
            if cmd.isNull():
                break
            out = str(cmd.invoke(slv, sm)).strip()
            if out in ('sat', 'unsat', 'unknown'):
                res = out
        return res
    except Exception:  # pylint: disable=broad-except
        return 'unknown'
