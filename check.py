#!/usr/bin/env python3
"""check.py Cxx [--replay FILE] [--tier quick|thorough] [--seed N]: decide one property on /repo's working tree"""
import sys, os, importlib.util, traceback
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, 'lib'))
import vt

def load(pid):
    path = os.path.join(here, 'checks', pid.lower() + '.py')
    spec = importlib.util.spec_from_file_location('check_' + pid, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m

if __name__ == '__main__':
    if sys.argv[1] == '--selftest':
        r = vt.run_tlc('Graph', constants=dict(Kinds={'L1', 'V0'}, MaxN=2, MinEmit=1), invariants=['NeverWrong', 'Emit'])
        print('tlc ok: %d states, %d behaviours' % (r.distinct, len(r.records)))
        sys.exit(0 if r.records else 3)
    pid = sys.argv[1].upper()
    try:
        rc = vt.main(load(pid).run, pid)
    except vt.MachineryError as e:
        print('MACHINERY ERROR:', e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
