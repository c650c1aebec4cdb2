#!/usr/bin/env python3
"""check.py <PROPERTY-ID>: decide one property on /repo's current source."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import threading
threading.stack_size(1024 * 1024 * 1024)
def run():
    global rc
    from sa import report
    table = {}
    from importlib import import_module
    for m in ('checks_funcs', 'checks_pipe', 'checks_model', 'checks_report', 'checks_interp', 'checks_setup', 'checks_main', 'checks_results', 'checks_io', 'checks_sect', 'checks_solvers', 'checks_effects', 'checks_mcmc', 'checks_config', 'checks_cmd', 'checks_info', 'checks_lm'):
        try: table.update(import_module('sa.' + m).TABLE)
        except ModuleNotFoundError as e:
            if m not in str(e): raise
    rc = report.main(table)
rc = 3
t = threading.Thread(target=run); t.start(); t.join()
sys.stdout.flush()
os._exit(rc)
